"""Generators and comparison for Mie coefficients (C04-C07)."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import mats
import ref
from core import arr, close, seq, Violation

PI = np.pi


def lrange(tier, big=60):
    small = st.tuples(st.integers(1, 4), st.integers(0, 6))
    return st.one_of(small, small, st.tuples(st.integers(1, big), st.integers(0, 8)), st.tuples(st.just(1), st.integers(0, big)),
                     ).map(lambda t: [t[0], t[0]+t[1]])


def ks(maxn=4):
    return st.one_of(gen.ks(1e-3, 30, maxn), gen.ks(1e-3, 30, maxn), gen.ks(1e-9, 100, maxn))


def radius():
    return gen.logf(0.05, 50, 4, special=(1.0, 2.0))


def tols(x_list, lmin, lmax):
    """absolute tolerance of the ratio: rounding of logarithmic Bessel functions"""
    return np.full(lmax+1-lmin, 2e-10)


def split(res, nk, lmin, lmax, what="mie"):
    """returns TE, TM, ln scaling as (nk, nl) arrays"""
    te, tm, ln = seq(res, 3, what)
    sh = (nk, lmax-lmin+1)
    return arr(te, sh, what+" TE"), arr(tm, sh, what+" TM"), arr(ln, sh, what+" scaling")


def compare(res, refs, x_lists, lmin, lmax, external, what="mie"):
    """res: output of the code; refs[j]: list over l of (te, tm, ln) ratios from the reference at k_j.
       The observable is coefficient*exp(scaling), relative to the bare Bessel quotient."""
    nk = len(refs)
    te, tm, ln = split(res, nk, lmin, lmax, what)
    l = np.arange(lmin, lmax+1)
    pref = (-1.0)**l*(PI/2 if external else 2/PI)
    for j in range(nk):
        want = np.array([[float(v) for v in r] for r in refs[j]])
        dev = ln[j]-want[:, 2]
        if not np.all(np.isfinite(dev)):
            raise Violation("%s: scaling is not finite: %r" % (what, ln[j]))
        f = np.exp(dev)/pref
        t = tols(x_lists[j], lmin, lmax)
        close(te[j]*f, want[:, 0], 2e-8, t, "%s TE/(i/k), k index %d, from l=%d" % (what, j, lmin))
        close(tm[j]*f, want[:, 1], 2e-8, t, "%s TM/(i/k), k index %d, from l=%d" % (what, j, lmin))


def x_of(spec, k, r):
    e, m = mats.response(spec, k)
    return float(mp.mpf(k)*mp.mpf(r)*mp.sqrt(e*m))
