"""C01: logarithmic modified spherical Bessel functions."""
import numpy as np
from hypothesis import strategies as st
import gen
import ref
from core import law, arr, close, need, raises, seq, Frozen
import bessel_sk
import mpmath as mp

SPECIAL = (1e-3, 0.99999e-3, 1.00001e-3, 100.0, 100.01, 99.99, 1.0, 1e-10, 1e4, 3e4, 700.0, 745.0, 350.0, 2e-3, 0.5e-3)


def xs(maxn=6, lo=1e-10, hi=3e4):
    return st.one_of(gen.ks(lo, hi, maxn, special=SPECIAL), gen.ks(1e-4, 1e-2, maxn, special=SPECIAL),
                     gen.ks(30, 3e3, maxn, special=SPECIAL))


def lmaxs(tier):
    return st.one_of(st.integers(0, 6), st.integers(0, 40), st.integers(41, 130 if tier == "quick" else 350))


def ln_ref(x, lmax):
    with mp.workdps(30):
        i, k = ref.sph_ik(x, lmax, 30)
        return [float(mp.log(v)) for v in i], [float(mp.log(v)) for v in k]


def tol_i(x, l):
    # rounding of sums of logarithms
    return 2e-11


def compare(lni, lnk, x, lmin, lmax):
    for j, xj in enumerate(x):
        ri, rk = ln_ref(xj, lmax)
        for l in range(lmin, lmax+1):
            if lni is not None:
                close(lni[j, l-lmin], ri[l], 2e-14, tol_i(xj, l), "ln i_%d(%g)" % (l, xj))
            if lnk is not None:
                close(lnk[j, l-lmin], rk[l], 2e-14, 2e-11, "ln k_%d(%g)" % (l, xj))


def label(x, lmax):
    sm, bg = any(v < 1e-3 for v in x), any(v > 100 for v in x)
    return "%s%s%s" % ("small," if sm else "", "large," if bg else "",
                       "l>40" if lmax > 40 else "l>1" if lmax > 1 else "l<=1")


def s_acc(tier):
    return st.fixed_dictionaries({"x": xs(), "lmax": lmaxs(tier), "npint": st.booleans()})


@law("C01", s_acc, 1000, 20000)
def accuracy(c):
    """lniknu and lnknu against 30 digit mpmath values for every order and argument; arguments unsorted,
       around the switching points of the implementation, orders as int or numpy integer; always non-trivial"""
    x = np.array(c["x"])
    lmax = np.int64(c["lmax"]) if c["npint"] else c["lmax"]
    fr = Frozen(x=x)
    lni, lnk = seq(bessel_sk.lniknu(x, lmax), 2)
    n = c["lmax"]+1
    lni, lnk = arr(lni, (len(x), n)), arr(lnk, (len(x), n))
    lnk2 = arr(bessel_sk.lnknu(x, lmax), (len(x), n))
    fr.check()
    compare(lni, lnk, c["x"], 0, c["lmax"])
    compare(None, lnk2, c["x"], 0, c["lmax"])
    return label(c["x"], c["lmax"])


def s_wrap(tier):
    return st.tuples(xs(), lmaxs(tier), st.integers(0, 5), st.booleans()).map(
        lambda t: {"x": t[0], "lmax": t[1], "lmin": max(0, t[1]-t[2]) if t[3] else min(t[1], t[2])})


@law("C01", s_wrap, 600, 12000)
def wrappers(c):
    """mie_bessels (orders lmin..lmax) and trans_bessels (regular or irregular) against mpmath; ratios
       I_nu/I_nu+1 of i_fraction against mpmath"""
    x, lmin, lmax = np.array(c["x"]), c["lmin"], c["lmax"]
    fr = Frozen(x=x)
    lni, lnk = seq(bessel_sk.mie_bessels(x, lmin, lmax), 2)
    sh = (len(x), lmax-lmin+1)
    compare(arr(lni, sh), arr(lnk, sh), c["x"], lmin, lmax)
    k = arr(bessel_sk.trans_bessels(x, lmax, 1), (len(x), lmax+1))
    i = arr(bessel_sk.trans_bessels(x, lmax, 0), (len(x), lmax+1))
    compare(i, k, c["x"], 0, lmax)
    ls = np.arange(max(1, lmin), lmax+1)
    if len(ls) and max(c["x"]) < 200:
        f = arr(bessel_sk.i_fraction(x, ls-0.5), (len(ls), len(x)))
        for j, xj in enumerate(c["x"]):
            with mp.workdps(30):
                ri, _ = ref.sph_ik(xj, lmax, 30)
                close(f[:, j], [float(ri[l-1]/ri[l]) for l in ls], 1e-10, 0, "i_(l-1)/i_l at x=%g" % xj)
    fr.check()
    if lmin < lmax:
        raises(ValueError, lambda: bessel_sk.mie_bessels(x, lmax, lmin), "mie_bessels with lmin > lmax")
    return label(c["x"], lmax)


def s_batch(tier):
    return st.fixed_dictionaries({"x": xs(8), "lmax": st.integers(0, 40), "perm": st.permutations(list(range(8))),
                                  "layout": st.sampled_from(["plain", "strided", "reversed"])})


@law("C01", s_batch, 1000, 20000)
def batch(c):
    """the value for an argument does not depend on which other arguments share the call, on their order or on
       the memory layout; non-trivial with at least two distinct arguments"""
    x = np.array(c["x"])
    lmax = c["lmax"]
    one = [[arr(v, (1, lmax+1))[0] for v in seq(bessel_sk.lniknu(np.array([xj]), lmax), 2)] for xj in c["x"]]
    perm = [p for p in c["perm"] if p < len(x)]
    y = x[perm]
    if c["layout"] == "strided":
        y = np.repeat(y, 2)[::2]
    elif c["layout"] == "reversed":
        y = y[::-1].copy()[::-1]
    bi, bk = seq(bessel_sk.lniknu(y, lmax), 2)
    bi, bk = arr(bi, (len(x), lmax+1)), arr(bk, (len(x), lmax+1))
    for j, p in enumerate(perm):
        t = np.array([tol_i(c["x"][p], l) for l in range(lmax+1)])
        close(bi[j], one[p][0], 1e-13, t, "ln i at x=%g in a batch" % x[p])
        close(bk[j], one[p][1], 1e-13, 1e-12, "ln k at x=%g in a batch" % x[p])
    return None if len(set(c["x"])) < 2 else "n=%d" % len(x)


def s_long(tier):
    return st.fixed_dictionaries({"lo": gen.unif(-9, 3), "w": gen.unif(0.1, 6), "n": st.integers(9, 600), "lmax": st.one_of(st.integers(0, 20), st.integers(0, 120)),
                                  "seed": st.integers(0, 2**32-1), "sorted": st.booleans()})


@law("C01", s_long, 120, 2400)
def long_arrays(c):
    """as batch, for arrays of up to 600 arguments; lniknu and both wrappers"""
    rng = np.random.default_rng(c["seed"])
    x = 10**rng.uniform(c["lo"], min(4.3, c["lo"]+c["w"]), size=c["n"])
    if c["sorted"]:
        x.sort()
    lmax = c["lmax"]
    fr = Frozen(x=x)
    bi, bk = [arr(v, (len(x), lmax+1)) for v in seq(bessel_sk.lniknu(x, lmax), 2)]
    ti, tk = [arr(bessel_sk.trans_bessels(x, lmax, e), (len(x), lmax+1)) for e in (0, 1)]
    fr.check()
    for j in sorted({0, len(x)-1}.union(rng.integers(0, len(x), 5).tolist())):
        oi, ok = seq(bessel_sk.lniknu(x[j:j+1].copy(), lmax), 2)
        t = np.array([tol_i(x[j], l) for l in range(lmax+1)])
        for a in (bi, ti):
            close(a[j], arr(oi, (1, lmax+1))[0], 1e-13, t, "ln i at x=%g, entry %d of %d" % (x[j], j, len(x)))
        for a in (bk, tk):
            close(a[j], arr(ok, (1, lmax+1))[0], 1e-13, 1e-12, "ln k at x=%g, entry %d of %d" % (x[j], j, len(x)))
    return "n<=100" if len(x) <= 100 else "n>100"


def s_rec(tier):
    return st.fixed_dictionaries({"x": gen.logf(1e-6, 1e4, special=SPECIAL),
                                  "lmax": st.integers(2, 300 if tier == "quick" else 700)})


@law("C01", s_rec, 150, 2000)
def recurrence(c):
    """three-term recurrences and the Wronskian i_l k_(l+1) + i_(l+1) k_l = pi/2x^2 for orders up to 300
       (700 in the thorough tier)"""
    x, lmax = c["x"], c["lmax"]
    lni, lnk = seq(bessel_sk.lniknu(np.array([x]), lmax), 2)
    i, k = arr(lni, (1, lmax+1))[0], arr(lnk, (1, lmax+1))[0]
    l = np.arange(1, lmax)
    # i_(l-1) = i_(l+1) + (2l+1)/x i_l, all terms positive
    lhs = i[:-2]
    rhs = np.logaddexp(i[2:], np.log((2*l+1)/x)+i[1:-1])
    t = 1e-10
    close(lhs, rhs, 1e-14, t, "recurrence of ln i")
    lhs = k[2:]
    rhs = np.logaddexp(k[:-2], np.log((2*l+1)/x)+k[1:-1])
    close(lhs, rhs, 1e-14, 1e-10, "recurrence of ln k")
    w = np.logaddexp(i[:-1]+k[1:], i[1:]+k[:-1])
    t = 1e-10
    close(w, np.full(lmax, np.log(np.pi/2)-2*np.log(x)), 1e-13, t+1e-14*np.abs(i[:-1]), "Wronskian")
    return "l>100" if lmax > 100 else "l<=100"


def s_bad(tier):
    return st.fixed_dictionaries({"x": xs(3), "lmax": st.integers(0, 20), "f": st.sampled_from(["lnknu", "lniknu"])})


@law("C01", s_bad, 40, 400)
def reject(c):
    """a non-integer maximal order is rejected with TypeError"""
    f = getattr(bessel_sk, c["f"])
    raises(TypeError, lambda: f(np.array(c["x"]), float(c["lmax"])), "%s with a float order" % c["f"])
    return c["f"]
