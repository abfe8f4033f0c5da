"""C15: automatic truncation in multipoles and Matsubara frequencies."""
import math
import numpy as np
from hypothesis import strategies as st
import gen
import geo
import mats
from core import law, close, flat, need
import geometry
import materials
import thermodynamics


def rule(r1, r2, L, p, off):
    """the documented rule: multipoles in proportion to radius over surface distance, more for a smaller precision"""
    rs, rg = min(r1, r2), max(r1, r2)
    gap = abs(rg-L)-rs
    if gap/rs >= 30:
        return 1, False
    x = math.exp(3-0.33*math.log10(p))*rs/gap/13.0
    near = abs(x-round(x)) < 1e-9*max(1, x)
    return max(int(x)+off, 1), near


def check_l(l, r1, r2, L, p, off, what):
    need(isinstance(l, (int, np.integer)) and l >= 1, "%s: lmax = %r is no positive integer" % (what, l))
    w, near = rule(r1, r2, L, p, off)
    need(l == w or near and abs(l-w) <= 1, "%s: lmax = %d instead of %d" % (what, l, w))


RADII = gen.logf(0.01, 100, 4, special=(1.0, 2.0))


def shape():
    ext = st.tuples(RADII, RADII, gen.logf(1e-3, 200, 4, special=(30.0, 29.0, 31.0, 1.0, 0.5))).map(
        lambda t: [t[0], t[1], t[0]+t[1]+t[2]*min(t[0], t[1])])
    inn = st.tuples(RADII, gen.logf(0.01, 50), gen.unif(0.02, 0.95)).map(lambda t: [t[0], t[0]*(1+t[1]), t[0]*t[1]*t[2]])
    return st.one_of(gen.opaque(ext), gen.opaque(ext), gen.opaque(inn))


def s_rule(tier):
    return st.fixed_dictionaries({"s": shape(), "p": gen.logf(1e-12, 0.5, 3, special=(1e-4, 1e-3)), "o": st.integers(-3, 20), "e": st.integers(-6, 6),
                                  "f": gen.logf(1.001, 5), "d": st.integers(1, 5)})


@law("C15", s_rule, 3750, 50000)
def lmax_rule(c):
    """the automatic lmax does not depend on the order of the spheres or on the unit of length, follows the rule, grows when the
       precision is tightened or the gap closes, takes the offset on top, and is never below one"""
    r1, r2, L = c["s"]
    p, o = c["p"], c["o"]
    l = geometry.get_lmax(r1, r2, L, p, o)
    gap = abs(max(r1, r2)-L)-min(r1, r2)
    if gap <= 0:
        return None
    check_l(l, r1, r2, L, p, o, "get_lmax")
    need(geometry.get_lmax(r2, r1, L, p, o) == l, "lmax depends on the order of the spheres")
    s = 2.0**c["e"]
    need(geometry.get_lmax(r1*s, r2*s, L*s, p, o) == l, "lmax depends on the unit of length")
    need(geometry.get_lmax(r1, r2, L, p/c["f"], o) >= l, "lmax falls with tighter precision")
    if L > r1+r2:
        need(geometry.get_lmax(r1, r2, L+(c["f"]-1)*gap, p, o) <= l, "lmax grows with the distance")
    far = gap/min(r1, r2) >= 30
    if not far and l > 1:
        need(geometry.get_lmax(r1, r2, L, p, o+c["d"]) == l+c["d"], "the offset is not added")
    if far:
        need(l == 1, "lmax = %d at large distance" % l)
    return ("ext" if L > r1+r2 else "int")+(",far" if far else "")


def s_geom(tier):
    return st.fixed_dictionaries({"s": shape(), "p": gen.logf(1e-12, 0.5, 3, special=(1e-4,)), "o": st.integers(0, 20), "lists": st.integers(0, 3),
                                  "in": gen.unif(0.1, 0.9), "lmax": st.sampled_from(["a", "a", 3, 7]), "lss": st.sampled_from(["a", "a", 8, 11])})


@law("C15", s_geom, 1500, 20000)
def geometry_truncation(c):
    """a geometry takes explicit truncations as they are; an automatic one follows the rule for the outer radii, and each sphere
       gets multipoles in proportion to its radius"""
    r1, r2, L = c["s"]
    if abs(max(r1, r2)-L)-min(r1, r2) <= 0:
        return None
    ext = L > r1+r2
    V = materials.Vacuum
    a1, m1 = ([r1*c["in"], r1], [V, V, V]) if c["lists"] & 1 else (r1, V)
    a2, m2 = ([r2*c["in"], r2], [V, V, V]) if c["lists"] & 2 and ext else (r2, V)
    kw = {}
    if c["lmax"] != "a":
        kw["lmax"] = c["lmax"]
    if c["lss"] != "a":
        kw["lssmax"] = c["lss"]
    G = geometry.SphereSphere(a1, a2, L, m1, m2, V, precision=c["p"], l_offset=c["o"], **kw)
    ratio = max(r1, r2)/min(r1, r2)

    def times(l):
        x = ratio*l
        return {int(x)} | ({round(x), round(x)-1} if abs(x-round(x)) < 1e-9*x else set())
    if c["lmax"] != "a":
        need(G.lmax == c["lmax"], "lmax = %r instead of the given %r" % (G.lmax, c["lmax"]))
        base = c["lmax"]
    else:
        base = geometry.get_lmax(r1, r2, L, c["p"], c["o"])
        want = times(base) if c["lss"] == "a" and r1 > r2 else {base}
        need(G.lmax in want, "lmax = %r instead of %r" % (G.lmax, want))
    if c["lss"] != "a":
        need(G.lssmax == c["lss"], "lssmax = %r instead of the given %r" % (G.lssmax, c["lss"]))
    else:
        need(G.lssmax in times(base), "lssmax = %r instead of %r" % (G.lssmax, times(base)))
        need(G.lssmax >= G.lmax, "lssmax < lmax")
    need(bool(G.ext_flag) == ext, "exterior and interior geometry are mixed up")
    return ("ext" if ext else "int")+",%s,%s" % (c["lmax"], c["lss"])


def s_prec(tier):
    ext = st.tuples(gen.logf(0.4, 2.5, 3), gen.logf(0.4, 2.5, 3), gen.logf(0.35, 60, 3)).map(
        lambda t: {"r1": t[0], "r2": t[1], "L": float("%.8g" % (t[0]+t[1]+t[2]*min(t[0], t[1]))), "ext": 1})
    inn = st.tuples(gen.logf(0.4, 2.5, 3), gen.logf(0.5, 4), gen.unif(0.05, 0.6)).map(
        lambda t: {"r1": t[0], "r2": float("%.6g" % (t[0]*(1+t[1]))), "L": float("%.6g" % (t[0]*t[1]*t[2])), "ext": 0})
    names = ["PerfectConductor", "Gold", "Altern1Ps", "Gold_plasma", "Silicon", "Mercury"]
    return st.fixed_dictionaries({"s": st.one_of(gen.opaque(ext), gen.opaque(ext), gen.opaque(inn)), "a": gen.lib(names), "b": gen.lib(names),
                                  "med": gen.lib(["Vacuum", "Vacuum", "Water"]), "p": gen.logf(1e-5, 1e-2, 3),
                                  "q": st.lists(gen.logf(1e-2, 1.0), min_size=1, max_size=2)})


@law("C15", s_prec, 90, 1500)
def precision(c):
    """with automatic truncation ln det is within a small multiple of the requested precision of the converged value, whichever
       sphere is the larger one (converged: one and a half times as many multipoles for both spheres)"""
    s, p = c["s"], c["p"]
    c["t"] = {"lmax": 1, "lss": 1}
    G = geo.make(c, lmax="automatic", lssmax="automatic", precision=p)
    ratio = max(s["r1"], s["r2"])/min(s["r1"], s["r2"])
    base = min(G.lmax, G.lssmax)
    if max(G.lmax, G.lssmax) > 45:
        return None
    la = int(geometry.get_lmax(s["r1"], s["r2"], s["L"], p, 4)*1.5)+5
    lb = int(ratio*la)
    l1, l2 = (la, lb) if s["r1"] <= s["r2"] else (lb, la)
    if not s["ext"]:
        l1, l2 = la, lb
    k = np.array([q*geo.kchar(s) for q in c["q"]])
    got = flat(G.mSumme(k), len(k))
    H = geo.make(c, lmax=l1, lssmax=max(l1, l2), precision=1e-12)
    want = flat(H.mSumme(k), len(k))
    gap = 1/geo.kchar(s)
    far = gap/min(s["r1"], s["r2"]) >= 30
    tol = 6*p+(20*(max(s["r1"], s["r2"])/gap)**2 if far else 0)
    close(got, want, tol, 1e-12, "ln det with automatic truncation at precision %g (lmax=%d, lssmax=%d)" % (p, G.lmax, G.lssmax))
    return ("int" if not s["ext"] else "r1>r2" if s["r1"] > s["r2"] else "r1<=r2")+(",far" if far else "")


def s_nmax(tier):
    return st.fixed_dictionaries({"s": shape(), "lt": gen.logf(1e-3, 30, 4, special=(7.0, 6.9, 7.1)), "f": gen.logf(1.01, 4), "l": st.integers(1, 60), "lists": st.integers(0, 1),
                                  "n": st.integers(1, 50)})


@law("C15", s_nmax, 1500, 20000)
def nmax_rule(c):
    """the automatic number of Matsubara frequencies is a positive integer that does not depend on the unit of length or the
       order of the spheres, does not grow with temperature, and grows with lmax; an explicit one is taken as it is"""
    r1, r2, L = c["s"]
    gap = L-r1-r2 if L > r1+r2 else max(r1, r2)-min(r1, r2)-L
    if gap <= 0:
        return None
    V = materials.Vacuum
    dT = c["lt"]/gap

    def n(a, b, d, T, l=c["l"], nm="automatic"):
        A, m = ([a/2, a], [V, V, V]) if c["lists"] else (a, V)
        G = geometry.SphereSphere(A, b, d, m, V, V, lmax=l, lssmax=l)
        r = thermodynamics.finiteT(T, nm, T, G).nmax
        need(isinstance(r, (int, np.integer)) and r >= 1, "nmax = %r is no positive integer" % r)
        return r
    x = n(r1, r2, L, dT)
    need(n(r1*4, r2*4, L*4, dT/4) == x, "nmax depends on the unit of length")
    if L > r1+r2:
        need(n(r2, r1, L, dT) == x, "nmax depends on the order of the spheres")
    # five frequencies more below gap*T = 7
    need(n(r1, r2, L, dT*c["f"]) <= x, "nmax grows with temperature")
    need(n(r1, r2, L, dT, c["l"]+5) >= x, "nmax falls with lmax")
    need(n(r1, r2, L, dT, nm=c["n"]) == c["n"], "explicit nmax is ignored")
    rs = min(r1, r2)
    cc = 0.4 if gap/rs > 0.5 else 0.1+2.21*math.exp(-rs/gap)
    LT = gap*dT
    w = cc*c["l"]/LT*(math.exp(-2*LT)*(gap+rs)/rs+1+LT/c["l"])+(1 if LT >= 7 else 5)
    near = min(abs(LT-7), abs(gap/rs-0.5)) < 1e-9 or abs(w-round(w)) < 1e-9*w
    need(near or x == max(1, int(w)), "nmax = %d instead of %d" % (x, int(w)))
    return ("ext" if L > r1+r2 else "int")+(",LT>=7" if LT >= 7 else "")+(",close" if gap/rs <= 0.5 else "")


def s_fprec(tier):
    return st.fixed_dictionaries({"c": s_prec(tier), "lt": gen.logf(0.15, 12)})


@law("C15", s_fprec, 90, 1200)
def free_energy_converged(c):
    """with automatic truncations the free energy is converged in the Matsubara frequencies: three times as many do not change
       it by more than the precision"""
    lt, c = c["lt"], c["c"]
    c["t"] = {"lmax": 1, "lss": 1}
    kw = dict(lmax="automatic", lssmax="automatic", precision=c["p"])
    dT = lt*geo.kchar(c["s"])
    G = geo.make(c, **kw)
    n = thermodynamics.finiteT(dT, "automatic", dT, G).nmax
    if n > 100 or G.lmax*G.lssmax > 300:
        return None
    a = flat(thermodynamics.finiteT(dT, "automatic", dT, G).free_energy(), 1)
    b = flat(thermodynamics.finiteT(dT, 3*n+5, dT, geo.make(c, **kw)).free_energy(), 1)
    close(a, b, max(c["p"], 2e-4), 1e-13*dT, "free energy with %d Matsubara frequencies" % n)
    return "int" if not c["s"]["ext"] else "ext"
