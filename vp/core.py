"""Laws, the generated-case driver, sharding, evidence and replay files.

A *law* is one executable statement belonging to a property: a Hypothesis strategy producing a
JSON-serialisable case, and a judge `fn(case, cx)` which builds the input from the case, calls the
code under test and compares what comes back with an independent oracle.  A judge reports a
violation with `cx.fail(...)` / `cx.check(...)` / `cx.close(...)`.
"""
from __future__ import annotations

import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st  # noqa: F401
import hypothesis.internal.conjecture.engine as _engine

from vp.boot import REPO, VERIF

# shrinking is a convenience for the reader of a replay file, never part of the verdict
_engine.MAX_SHRINKING_SECONDS = 25
CPU_LIMIT_S = 60  # CPU seconds (not wall clock) one case may burn; normal cases take < 3


class Violation(Exception):
    """The code under test broke the law on this case."""


class Hang(KeyboardInterrupt):
    """The code under test did not come back; never shrunk (each attempt would cost the limit)."""


class HarnessError(Exception):
    """Something went wrong in the check itself."""


class _Hang(BaseException):
    pass


class Skip(Exception):
    """The generated case is outside the law's domain (counted, never silent)."""


LAWS: dict[str, list["Law"]] = {}


class Law:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, shards):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards


def law(prop, strategy, quick=200, thorough=None, rule="", shards=8, name=None):
    def deco(fn):
        laws = LAWS.setdefault(prop, [])
        laws.append(
            Law(prop, name or fn.__name__, strategy, fn, quick, thorough or 12 * quick, rule, shards)
        )
        return fn

    return deco


class Cx:
    """What a judge talks to."""

    def __init__(self):
        self.labels: Counter = Counter()
        self.trivial = False
        self.ran = False

    def label(self, *names):
        for name in names:
            self.labels[str(name)] += 1

    def vary_entropy(self):
        """From now on in this case, unseeded generators differ from each other."""
        _entropy["vary"] = True

    def mark_trivial(self):
        self.trivial = True

    def skip(self, why):
        raise Skip(why)

    # -- verdicts -----------------------------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def arr(self, x, shape=None, what="result", finite=True):
        """Turn a result into a float array of the expected shape, or report a violation."""
        self.ran = True
        try:
            a = np.asarray(x, dtype=float)
        except Exception as e:
            raise Violation(f"{what}: not numeric: {x!r:.200} ({e})")
        if shape is not None and a.shape != tuple(shape):
            raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
        if finite and not np.all(np.isfinite(a)):
            raise Violation(f"{what}: not finite: {_short(a)}")
        return a

    def close(self, got, want, rtol=1e-7, atol=0.0, what="value"):
        """Element-wise |got-want| <= atol + rtol*max|want| (norm-wise), NaN equal to NaN."""
        self.ran = True
        want = np.asarray(want, dtype=float)
        got = self.arr(got, want.shape, what, finite=False)
        if want.size == 0:
            return
        nan_w, nan_g = np.isnan(want), np.isnan(got)
        inf_w = np.isinf(want)
        if not np.array_equal(nan_w, nan_g) or not np.array_equal(want[inf_w], got[inf_w]):
            raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")
        ok = ~nan_w & ~inf_w
        if not ok.any():
            return
        if not np.all(np.isfinite(got[ok])):
            raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")
        tol = atol + rtol * np.max(np.abs(want[ok]))
        err = np.abs(got[ok] - want[ok])
        if np.max(err) > tol:
            raise Violation(
                f"{what}: got {_short(got)}, expected {_short(want)} "
                f"(max difference {np.max(err):.6g} > tolerance {tol:.3g})"
            )

    def raises(self, exc, fn, what):
        """fn() must raise one of exc."""
        self.ran = True
        try:
            out = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__}({e!s:.150}) instead of {_exc(exc)}")
        raise Violation(f"{what}: returned {out!r:.150} instead of raising {_exc(exc)}")


def _exc(exc):
    return "/".join(e.__name__ for e in (exc if isinstance(exc, tuple) else (exc,)))


def _short(a):
    with np.printoptions(threshold=24, edgeitems=3, precision=8, linewidth=160):
        return repr(np.asarray(a)).replace("\n", " ")[:600]


# ---------------------------------------------------------------------------------------------
def _on_cpu(signum, frame):
    raise _Hang()


_real_default_rng = np.random.default_rng


_entropy = {"vary": False, "n": 0}


def _pinned_default_rng(seed=None):
    # estimators whose random_seed is left at None draw fresh OS entropy; pin it so that a run of a
    # check is a pure function of the code and VERIF_SEED. Laws about seeds call cx.vary_entropy():
    # then every unseeded generator is a different one, as in reality, but still reproducible
    if seed is None:
        _entropy["n"] += _entropy["vary"]
        seed = 20240229 + _entropy["n"]
    return _real_default_rng(seed)


_JUDGING_ERRORS = (ValueError, TypeError, IndexError, ArithmeticError, np.linalg.LinAlgError)


def run_case(lw: Law, case, cx: Cx):
    """Judge one case. Raises Violation or HarnessError; returns 'ok' or 'skip:<why>'."""
    import matplotlib.pyplot as plt

    np.random.default_rng = _pinned_default_rng
    _entropy.update(vary=False, n=0)
    np.random.seed(12345)
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)
    try:
        with np.errstate(all="ignore"):
            lw.fn(case, cx)
        return "ok"
    except Skip as s:
        return f"skip:{s}"
    except Violation:
        raise
    except _Hang:
        raise Hang(f"did not terminate within {CPU_LIMIT_S} s of CPU time")
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(REPO + os.sep)]
        if inside:
            f = inside[-1]
            raise Violation(
                f"raised {type(e).__name__}: {e!s:.300} on a valid input "
                f"(at {os.path.relpath(f.filename, REPO)}:{f.lineno} in {f.name})"
            )
        if cx.ran and isinstance(e, _JUDGING_ERRORS):
            # the oracle choked on what the code under test returned (wrong type, shape, None ...)
            raise Violation(
                f"result cannot be judged: {type(e).__name__}: {e!s:.300} at line {tb[-1].lineno} "
                f"of {os.path.basename(tb[-1].filename)}"
            )
        raise HarnessError("".join(traceback.format_exception(e)))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        np.random.default_rng = _real_default_rng
        plt.close("all")


def _derive(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def run_shard(prop, index, shard, n_shards, n_examples, seed):
    """Generate and judge one shard of one law's cases. Runs in a worker process."""
    lw = LAWS[prop][index]
    stats = dict(
        law=lw.name, evaluations=0, hashes=set(), labels=Counter(), skips=Counter(), samples=[],
        failure=None, error=None, seconds=0.0,
    )
    t0 = time.time()
    last = {}

    @settings(
        max_examples=n_examples,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.large_base_example,
            HealthCheck.data_too_large,
        ],
    )
    @hypothesis.seed(_derive(seed, prop, lw.name, shard))
    @given(lw.strategy)
    def body(case):
        cx = Cx()
        try:
            res = run_case(lw, case, cx)
        except Hang as v:
            if not last:
                last["case"], last["msg"] = case, str(v)
            raise
        except Violation as v:
            last["case"], last["msg"] = case, str(v)
            raise
        if last:
            return  # shrinking: do not count
        stats["evaluations"] += 1
        if res != "ok":
            stats["skips"][res[5:]] += 1
            return
        stats["labels"].update(cx.labels)
        if not cx.trivial:
            text = json.dumps(case, sort_keys=True, default=_jsonable)
            stats["hashes"].add(hashlib.sha1(text.encode()).hexdigest())
            if len(stats["samples"]) < 2 and len(text) < 1500:
                stats["samples"].append(case)

    try:
        body()
    except (Violation, Hang):
        stats["failure"] = dict(case=last["case"], message=last["msg"])
        stats["evaluations"] += 1
    except HarnessError as e:
        stats["error"] = str(e)
    except BaseException as e:  # Flaky, Unsatisfiable, health checks ...
        if last and type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay", "BaseExceptionGroup", "ExceptionGroup"):
            stats["failure"] = dict(case=last["case"], message=last["msg"])
        else:
            stats["error"] = "".join(traceback.format_exception(e))
    stats["seconds"] = time.time() - t0
    return stats


def _jsonable(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    raise TypeError(repr(o))


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=_jsonable)
        f.write("\n")
    os.replace(tmp, path)
