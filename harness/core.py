"""Monitor core: records what the real code does, compares it with oracles, keeps replayable cases.

A *case* is one generated workload, fully determined by (property, seed, kind, index).  A case calls
the real code from /repo through Rec.call (which logs the call and guards the caller's data) and
judges what it observes with Rec.close / Rec.true / Rec.raises.
"""
import functools
import hashlib
import inspect
import json
import os
import signal
import time
import traceback
import zlib

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
EPS32, EPS64 = 1.1920929e-07, 2.220446e-16


CASE_SECONDS = 200  # a case normally takes well under five seconds


class CaseStop(Exception):
    pass


class DidNotReturn(Exception):
    pass


def _alarm(signum, frame):
    raise DidNotReturn(f"no result after {CASE_SECONDS} s")


def case_rng(prop, seed, kind, index):
    return np.random.default_rng([zlib.crc32(prop.encode()), int(seed) & 0x7FFFFFFF, zlib.crc32(kind.encode()), int(index)])


def tonp(x):
    return np.asarray(x)


def _short(x, n=6):
    a = np.asarray(x)
    if a.size <= n:
        return a.tolist()
    return f"array{a.shape} [{', '.join('%.6g' % v for v in a.ravel()[:n].astype(float))}, ...]" if a.dtype.kind in "fiub" else str(a.shape)


def jsonable(v):
    if isinstance(v, (np.ndarray, np.generic)) or type(v).__module__.startswith("jax"):
        return _short(v)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x) for x in list(v)[:20]]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)[:200]


with open(os.path.join(os.path.dirname(__file__), "defaults.json")) as _f:
    DEFAULTS = json.load(_f)


def _documented(fn):
    """(documented defaults, positional parameters) of a callable of gwinferno"""
    if isinstance(fn, functools.partial):  # its bound arguments are the caller's
        return {}, []
    if inspect.ismethod(fn):
        for c in type(fn.__self__).__mro__:
            d = DEFAULTS.get(f"{c.__name__}.{fn.__name__}")
            if d:
                break
    elif inspect.isclass(fn):
        d = DEFAULTS.get(fn.__name__) if str(fn.__module__).startswith("gwinferno") else None
    elif inspect.isfunction(fn):
        d = DEFAULTS.get(fn.__qualname__) if str(fn.__module__).startswith("gwinferno") else None
    elif hasattr(fn, "__wrapped__"):  # compiled functions
        return _documented(fn.__wrapped__)
    else:
        d = None
        for c in type(fn).__mro__:
            d = DEFAULTS.get(f"{c.__name__}.__call__") if str(c.__module__).startswith("gwinferno") else None
            if d:
                break
    return (d["defaults"], d["positional"]) if d else ({}, [])


def _same(v, d):
    if isinstance(d, list):
        return isinstance(v, (tuple, list)) and len(v) == len(d) and all(_same(a, b) for a, b in zip(v, d))
    if d is None or isinstance(d, (bool, str)):
        return type(v) is type(d) and v == d
    return isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool) and v == d


class Rec:
    def __init__(self, prop, kind, index, seed, x64, tier):
        self.prop, self.kind, self.index, self.seed, self.x64, self.tier = prop, kind, index, seed, x64, tier
        self.rng = case_rng(prop, seed, kind, index)
        self.rng2 = case_rng(prop, seed, kind + "|defaults", index)
        self.params, self.violations, self.events = {}, [], {}
        self.comparisons = 0
        self.values = 0
        self.max_err = 0.0
        self.purity = False
        self.digest = hashlib.sha1(f"{kind}|{x64}".encode())
        self.eps = EPS64 if x64 else EPS32
        self.calls = 0
        self.skipped = None

    # --- tolerances -------------------------------------------------------------------------
    def tol(self, f32, f64):
        return f64 if self.x64 else f32

    @property
    def ft(self):
        return np.float64 if self.x64 else np.float32

    def arr(self, x):
        """A NumPy array in the working precision of this case (so oracle and code see the same numbers)."""
        return np.asarray(x, dtype=self.ft)

    # --- events -----------------------------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, **kw):
        self.params.update({k: jsonable(v) for k, v in kw.items()})
        self.digest.update(repr(sorted((k, str(v)[:400]) for k, v in self.params.items())).encode())

    def omit(self, kw, p=0.6, **documented):
        """leave out (sometimes) the options that equal their documented default"""
        drop = [k for k, v in documented.items() if k in kw and type(kw[k]) is type(v) and kw[k] == v and self.rng.random() < p]
        if drop:
            self.ev("defaults-used", len(drop))
        return {k: v for k, v in kw.items() if k not in drop}

    def plain(self, fn, args, kw):
        """Leave out (sometimes) arguments that merely spell out the documented default: the answer may not depend on it."""
        d, pos = _documented(fn)
        if not d:
            return args, kw
        drop = [k for k in kw if k in d and _same(kw[k], d[k]) and self.rng2.random() < 0.4]
        n = len(drop)
        kw = {k: v for k, v in kw.items() if k not in drop}
        while args and len(args) <= len(pos) and pos[len(args) - 1] in d and _same(args[-1], d[pos[len(args) - 1]]) and self.rng2.random() < 0.4:
            args = args[:-1]
            n += 1
        if n:
            self.ev("defaults-used", n)
        return args, kw

    def call(self, fn, *args, **kw):
        name = getattr(fn, "__qualname__", None) or type(fn).__name__
        args, kw = self.plain(fn, args, kw)
        self.ev("call:" + name)
        self.calls += 1
        watched = [(i, a, a.copy()) for i, a in list(enumerate(args)) + list(kw.items()) if isinstance(a, np.ndarray)]
        out = fn(*args, **kw)
        if self.purity:
            for i, a, old in watched:
                self.ev("purity")
                same = a.shape == old.shape and (a.tobytes() == old.tobytes())
                if not same:
                    self.bad(f"{name} modified its argument {i}", before=_short(old), after=_short(a))
        return out

    def bad(self, what, **detail):
        if len(self.violations) < 6:
            self.violations.append({"what": what, **{k: jsonable(v) for k, v in detail.items()}})

    def true(self, cond, what, **detail):
        self.comparisons += 1
        ok = bool(np.all(np.asarray(cond)))
        if not ok:
            self.bad(what, **detail)
        return ok

    def close(self, actual, expected, what, rtol, atol=0.0, shape=True, **detail):
        """elementwise |actual-expected| <= atol + rtol*|expected|; equal infinities allowed; NaN never."""
        self.comparisons += 1
        a = np.asarray(actual)
        e = np.asarray(expected)
        if shape and a.shape != e.shape:
            self.bad(f"{what}: shape {a.shape} instead of {e.shape}", **detail)
            return False
        a = a.astype(np.float64) if a.dtype.kind != "c" else a
        e = e.astype(np.float64) if e.dtype.kind != "c" else e
        try:
            a, e, rt, at = np.broadcast_arrays(a, e, np.asarray(rtol, float), np.asarray(atol, float))
        except ValueError:
            self.bad(f"{what}: shapes {a.shape} and {e.shape} do not fit", **detail)
            return False
        self.values += int(a.size)
        self.digest.update(np.ascontiguousarray(a[..., :4] if a.ndim else a).tobytes())
        with np.errstate(all="ignore"):
            err = np.abs(a - e)
            lim = at + rt * np.abs(e)
            good = (err <= lim) | (a == e)
        bad = ~good
        if bad.any():
            i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
            with np.errstate(all="ignore"):
                worst = float(np.nanmax(np.where(bad, err / np.maximum(lim, 1e-300), 0.0))) if a.size else 0
            self.bad(what, at=[int(j) for j in i], actual=float(np.real(a[i])), expected=float(np.real(e[i])), limit=float(lim[i]),
                     n_bad=int(bad.sum()), n=int(a.size), worst_ratio=worst, **detail)
            return False
        with np.errstate(all="ignore"):
            r = err / np.where(lim > 0, lim, np.inf)
            if r.size:
                m = float(np.nanmax(np.where(np.isfinite(r), r, 0)))
                self.max_err = max(self.max_err, m)
        return True

    def raises(self, exc, fn, *args, what="", **kw):
        self.comparisons += 1
        self.ev("expected-error")
        try:
            fn(*args, **kw)
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.bad(f"{what}: raised {type(e).__name__} ({str(e)[:120]}) instead of being refused properly")
            return False
        self.bad(f"{what}: accepted instead of being refused")
        return False

    def finite(self, x, what, **detail):
        x = np.asarray(x)
        return self.true(np.isfinite(x).all(), what + ": not finite", value=x, **detail)

    def skip(self, why):
        self.skipped = why
        raise CaseStop()


ENV_ERRORS = (MemoryError, OSError, KeyboardInterrupt, ImportError)


def run_case(mod, prop, kind, index, seed, x64, tier):
    rec = Rec(prop, kind, index, seed, x64, tier)
    fn = mod.KINDS[kind][0]
    err = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        fn(rec)
    except CaseStop:
        pass
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + "/")]
        text = "".join(traceback.format_exception(e))[-3000:]
        resource = "RESOURCE_EXHAUSTED" in str(e)
        if in_repo and not isinstance(e, (MemoryError, KeyboardInterrupt)) and not resource:
            f = in_repo[-1]
            rec.bad(f"raised {type(e).__name__} on in-domain input: {str(e)[:200]}", where=f"{os.path.relpath(f.filename, REPO)}:{f.name}", trace=text[-1500:])
        elif rec.calls and not isinstance(e, ENV_ERRORS) and not resource:
            # what the code returned could not even be interpreted (wrong type, missing name, wrong number of values ...)
            rec.bad(f"output could not be interpreted: {type(e).__name__}: {str(e)[:200]}", trace=text[-1500:])
        else:
            err = text
    finally:
        signal.alarm(0)
    return rec, err, time.time() - t0


def plan(mod, tier):
    """All cases of a property: list of (kind, index, x64)."""
    out = []
    for kind, spec in mod.KINDS.items():
        n = spec[1] if tier == "quick" else spec[2]
        modes = spec[3] if len(spec) > 3 else "both"
        for i in range(n):
            x64 = {"both": i % 2 == 1, "f32": False, "x64": True}[modes]
            out.append((kind, i, x64))
    return out


def dump(path, obj):
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(tmp, path)
