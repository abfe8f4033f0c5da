"""Machinery shared by all properties: laws, comparison helpers, execution of one shard."""
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

LAWS = {}           # property -> [Law]


class Violation(Exception):
    """the code under test did something the property forbids"""


class Law:
    def __init__(self, prop, name, func, strategy, quick, thorough, rule):
        self.prop, self.name, self.func, self.strategy = prop, name, func, strategy
        self.quick, self.thorough, self.rule = quick, thorough, rule


def law(prop, strategy, quick, thorough=None, rule=""):
    """Register a law.  `strategy` is a function tier -> Hypothesis strategy of JSON-able dictionaries,
       the decorated function executes one case and returns a label (non-trivial) or None (trivial)."""
    def deco(f):
        LAWS.setdefault(prop, []).append(
            Law(prop, f.__name__, f, strategy, quick, thorough or 20*quick, rule or (f.__doc__ or "").strip()))
        return f
    return deco


# ------------------------------------------------------------------ comparisons
def arr(x, shape=None, what="result"):
    """the output of the code under test as a float array, with the shape it has to have"""
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        raise Violation("%s is not a real array: %r" % (what, x))
    if shape is not None and a.shape != tuple(shape):
        raise Violation("%s has shape %s instead of %s" % (what, a.shape, tuple(shape)))
    return a


def flat(x, n=None, what="result"):
    a = arr(x, None, what).reshape(-1)
    if n is not None and a.size != n:
        raise Violation("%s has %d elements instead of %d" % (what, a.size, n))
    return a


def seq(x, n, what="result"):
    """a sequence of n items"""
    try:
        x = list(x)
    except TypeError:
        raise Violation("%s is no sequence: %r" % (what, x))
    if len(x) != n:
        raise Violation("%s has %d items instead of %d" % (what, len(x), n))
    return x


def close(got, want, rtol, atol=0.0, what="result"):
    """|got - want| <= rtol*|want| + atol elementwise; NaN never passes"""
    got = arr(got, None, what)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s has shape %s instead of %s" % (what, got.shape, want.shape))
    with np.errstate(all="ignore"):
        same_inf = np.isinf(want) & (got == want)
        ok = np.abs(got-want) <= rtol*np.abs(want) + atol
        ok = ok | same_inf
    if not np.all(ok):
        bad = np.argwhere(~np.atleast_1d(ok))[0]
        g, w = np.atleast_1d(got)[tuple(bad)], np.atleast_1d(want)[tuple(bad)]
        raise Violation("%s%s: got %.15g, expected %.15g (difference %.3g, allowed %.3g)" % (
            what, list(map(int, bad)), g, w, g-w,
            float(np.atleast_1d(rtol*np.abs(want)+atol*np.ones_like(want))[tuple(bad)])))


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation("%s raised %r instead of %s" % (what, e, exc))
    raise Violation("%s returned %r instead of raising %s" % (what, r, exc))


class Frozen:
    """remembers arrays/lists handed to the code under test and checks that it left them alone"""
    def __init__(self, **kw):
        self.kw = kw
        self.copy = {n: self._c(v) for n, v in kw.items()}

    @staticmethod
    def _c(v):
        return v.copy() if isinstance(v, np.ndarray) else [Frozen._c(i) for i in v] if isinstance(v, (list, tuple)) else v

    @staticmethod
    def _same(a, b):
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(Frozen._same(i, j) for i, j in zip(a, b))
        return a is b or a == b

    def check(self):
        for n, v in self.kw.items():
            need(self._same(v, self.copy[n]), "the argument %s of the caller was changed: %r -> %r" % (n, self.copy[n], v))


# ------------------------------------------------------------------ execution
def classify(exc, src_dirs):
    """'violation' or 'harness'"""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (MemoryError, KeyboardInterrupt)):
        return "harness"
    tb = exc.__traceback__
    in_repo = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if any(fn.startswith(d) for d in src_dirs) or fn.endswith(".pyx"):
            in_repo = True
        tb = tb.tb_next
    return "violation" if in_repo else "harness"


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    return "%s: %s" % (type(exc).__name__, exc) + "\n" + "".join(traceback.format_tb(exc.__traceback__)[-4:])


SHRINK_SECONDS = 30


def run_shard(lw, tier, seed, shard, n, src_dirs, statefile):
    """run n generated cases of one law; returns a dictionary"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "failure": None, "harness": None}
    seen = set()
    fails = []
    t_fail = [None]
    hseed = int(hashlib.sha256(("%s/%s/%s/%s" % (lw.prop, lw.name, seed, shard)).encode()).hexdigest()[:12], 16)

    class Harness(BaseException):
        pass

    def body(case):
        if t_fail[0] is not None and time.time()-t_fail[0] > SHRINK_SECONDS:
            return
        text = json.dumps(case, sort_keys=True)
        with open(statefile, "w") as f:
            f.write(json.dumps({"law": lw.name, "case": case, "cpu": time.process_time()}))
        res["evaluations"] += 1
        try:
            label = execute(lw, json.loads(text))
        except Exception as e:
            kind = classify(e, src_dirs)
            if kind == "harness":
                res["harness"] = {"law": lw.name, "case": case, "message": describe(e)}
                raise Harness()
            fails.append((len(text), text, describe(e)))
            if t_fail[0] is None:
                t_fail[0] = time.time()
            raise
        if label is not None:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            res["labels"][label] = res["labels"].get(label, 0)+1
            if h not in seen:
                seen.add(h)
                if len(res["samples"]) < 3:
                    res["samples"].append({"law": lw.name, "label": label, "case": case})

    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                    phases=(Phase.generate,) if os.environ.get("VERIF_FAST") else (Phase.generate, Phase.shrink), report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck))(
        hypothesis.seed(hseed)(given(case=lw.strategy(tier))(body)))
    try:
        test()
    except Harness:
        pass
    except BaseException as e:
        if not fails:
            res["harness"] = {"law": lw.name, "case": None, "message": describe(e)}
    if fails:
        size, text, msg = min(fails)
        res["failure"] = {"law": lw.name, "case": json.loads(text), "message": msg, "shard_seed": hseed,
                          "cases_before": res["evaluations"]}
    res["nontrivial"] = sorted(seen)
    return res


def execute(lw, case):
    with np.errstate(all="ignore"):
        return lw.func(case)
