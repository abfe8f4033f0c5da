"""C02: Gaunt coefficients."""
import math
import numpy as np
from hypothesis import strategies as st
import scipy.special as sp
import ref
from core import law, arr, close, need
from cython_gaunt import gaunt


def lm(lmax, outside=False):
    def ms(t):
        m = min(t)
        return st.one_of(st.integers(-m, m), st.sampled_from([0, m, -m]))
    l = st.one_of(st.integers(0, min(lmax, 8)), st.integers(0, lmax), st.integers(0, lmax))
    pair = st.one_of(st.tuples(l, l), l.map(lambda a: (a, a)), l.map(lambda a: (a, 1)))
    return pair.flatmap(lambda t: ms(t).map(lambda m: {"l1": t[0], "l2": t[1], "m": m}))


def get(l1, l2, m):
    return arr(gaunt(l1, l2, m), (min(l1, l2)+1,), "gaunt(%d, %d, %d)" % (l1, l2, m))


def qs(l1, l2):
    return range(abs(l1-l2), l1+l2+1, 2)


RTOL = 1e-9          # per coefficient; zero crossings of the coefficients need the absolute part


def local(r):
    """the largest of a coefficient and its neighbours: they oscillate around zero in the middle, but fall over hundreds of
       decades towards the ends, where each one counts (it is multiplied by a Bessel function of its order)"""
    a = np.abs(np.asarray(r, float))
    p = np.concatenate(([0.0], a, [0.0]))
    return np.maximum(a, np.maximum(p[:-2], p[2:]))


def atol(l1, l2, g):
    return (1e-13 if l1+l2 <= 40 else 1e-12)*np.abs(g).max()


@law("C02", lambda tier: lm(60), 6000, 60000)
def exact_small(c):
    """against exact rational arithmetic (Racah formula), orders up to 60; non-trivial when l1, l2 >= 1"""
    l1, l2, m = c["l1"], c["l2"], c["m"]
    g = get(l1, l2, m)
    r = np.array([float(ref.gaunt_exact(l1, l2, q, m)) for q in qs(l1, l2)])
    close(g, r, RTOL, atol(l1, l2, r), "gaunt")
    close(g/local(r), r/local(r), 0, 1e-9, "gaunt, relative to the neighbouring coefficients")
    return None if min(l1, l2) < 1 else "m=0" if m == 0 else "m>0" if m > 0 else "m<0"


@law("C02", lambda tier: lm(150 if tier == "quick" else 320), 128, 1500)
def exact_large(c):
    """as exact_small with orders up to 150 (320 in the thorough tier)"""
    return exact_small(c)


def s_chosen(tier):
    hi = 1000 if tier == "quick" else 1500
    l = st.one_of(st.integers(100, hi), st.integers(500, hi), st.integers(1, 100))
    p = st.one_of(st.tuples(l, l), l.map(lambda a: (a, a)))
    # projections of any size, preferably close to the largest one, where the coefficients span hundreds of decades
    m = lambda t: st.one_of(st.integers(0, min(t)), st.integers(0, min(20, min(t))).map(lambda d: min(t)-d))
    return p.flatmap(lambda t: st.tuples(m(t), st.sampled_from([1, -1]), st.lists(st.floats(0, 1), min_size=2, max_size=4)).map(
        lambda u: {"l1": t[0], "l2": t[1], "m": u[0]*u[1], "q": [round(x, 4) for x in u[2]]}))


@law("C02", s_chosen, 160, 1000)
def exact_chosen(c):
    """orders up to 1000 (1500), any projection: the first, the last, the largest and some other coefficients against exact
       arithmetic; non-trivial: always"""
    l1, l2, m = c["l1"], c["l2"], c["m"]
    g = get(l1, l2, m)
    Q = list(qs(l1, l2))
    n = len(Q)-1
    idx = sorted({0, n, int(np.abs(g).argmax())} | {int(x*n) for x in c["q"]})
    r = np.array([float(ref.gaunt_exact(l1, l2, Q[j], m)) for j in idx])
    for j, x in zip(idx, r):
        y = max(abs(x), abs(float(ref.gaunt_exact(l1, l2, Q[j-1] if j else Q[j+1], m))))
        close(g[j], x, 0, 1e-9*y+1e-300, "gaunt(%d, %d, %d) for q=%d" % (l1, l2, m, Q[j]))
    return "l>500" if max(l1, l2) > 500 else "l<=500"


def s_theta(tier):
    return st.tuples(lm(45), st.floats(0.02, math.pi-0.02)).map(lambda t: dict(t[0], theta=round(t[1], 5)))


def ylm(l, m, th):
    """real Y_lm(theta, 0)"""
    am = abs(m)
    v = math.sqrt((2*l+1)/(4*math.pi))*math.exp(0.5*(math.lgamma(l-am+1)-math.lgamma(l+am+1)))*sp.lpmv(am, l, math.cos(th))
    return v if m >= 0 else (-1)**am*v


@law("C02", s_theta, 4000, 30000)
def product_expansion(c):
    """sum_q gaunt_q Y_q0(theta) = Y_l1,m(theta) Y_l2,-m(theta) for random angles"""
    l1, l2, m, th = c["l1"], c["l2"], c["m"], c["theta"]
    g = get(l1, l2, m)
    y = np.array([ylm(q, 0, th) for q in qs(l1, l2)])
    want = ylm(l1, m, th)*ylm(l2, -m, th)
    scale = np.abs(g*y).max()+abs(want)
    close((g*y).sum(), want, 0, 1e-10*scale, "expansion of the product of spherical harmonics")
    return None if min(l1, l2) < 1 else "product"


@law("C02", lambda tier: lm(300 if tier == "quick" else 600), 1600, 8000)
def pole_sum(c):
    """large orders: at theta=0 the expansion gives sum_q gaunt_q sqrt(2q+1) = delta_m0 sqrt((2l1+1)(2l2+1)/4pi);
       symmetry under exchange of (l1,m) and (l2,-m) and under m -> -m"""
    l1, l2, m = c["l1"], c["l2"], c["m"]
    g = get(l1, l2, m)
    q = np.array(list(qs(l1, l2)))
    want = math.sqrt((2*l1+1)*(2*l2+1)/(4*math.pi)) if m == 0 else 0.0
    terms = g*np.sqrt(2*q+1)
    close(terms.sum(), want, 1e-8, 1e-8*np.abs(terms).sum(), "sum rule at the pole")
    t = 20*atol(l1, l2, g)
    close(get(l2, l1, -m), g, 1e-8, t, "exchange symmetry")
    close(get(l1, l2, -m), g, 1e-8, t, "symmetry m -> -m")
    return None if min(l1, l2) < 1 else "l>100" if max(l1, l2) > 100 else "l<=100"


def s_out(tier):
    return st.tuples(st.integers(0, 40), st.integers(0, 40), st.integers(1, 10), st.sampled_from([1, -1])).map(
        lambda t: {"l1": t[0], "l2": t[1], "m": t[3]*(min(t[0], t[1])+t[2])})


@law("C02", s_out, 800, 4000)
def forbidden_m(c):
    """|m| > min(l1, l2): all coefficients vanish, and there are still min(l1,l2)+1 of them"""
    g = get(c["l1"], c["l2"], c["m"])
    need(not np.any(g), "non-zero coefficient for |m| > min(l1, l2): %r" % g)
    return "zero"


def s_pair(tier):
    n = 25 if tier == "quick" else 45
    return st.tuples(st.integers(0, n), st.integers(0, n)).map(lambda t: {"l1": t[0], "l2": t[1]})


@law("C02", s_pair, 1400, 5000)
def exact_all_m(c):
    """for a pair of orders up to 25 (45) all allowed m and the first forbidden ones at once, against exact arithmetic"""
    l1, l2 = c["l1"], c["l2"]
    n = min(l1, l2)
    for m in range(-n-1, n+2):
        g = get(l1, l2, m)
        r = np.array([float(ref.gaunt_exact(l1, l2, q, m)) for q in qs(l1, l2)])
        close(g, r, RTOL, atol(l1, l2, r), "gaunt(%d, %d, %d)" % (l1, l2, m))
    return None if n < 1 else "pair"
