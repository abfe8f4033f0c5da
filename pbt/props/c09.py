"""C09: the zero-frequency term is the limit k -> 0."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import geo
import mats
import ref
from core import law, arr, close, flat, need, raises, seq, Frozen, Violation
from translation import translation
import geometry
import materials


def static(c, m):
    s, t = c["s"], c["t"]
    A, B, Md = mats.static(c["a"]), mats.static(c["b"]), mats.static(c["med"])
    te, tm, MTE, MTM, W = ref.static_lndet(m, t["lmax"], t["lss"], s["r1"], s["r2"], s["L"], A, B, (Md[1], Md[2]), s["ext"])
    ld = float(te+tm)
    tol = (1e-10*float(W)+3e-15*t["lmax"])/max(1e-3, float(mp.exp(te+tm)))
    return ld, MTE, MTM, tol


def trace(M):
    return float(sum(M[i, i] for i in range(M.rows)))


@law("C09", lambda tier: geo.case(tier, 8, 8, 2), 1500, 30000)
def limit(c):
    """single_m_k0, single_m, and the zero-frequency blocks of blockmatrices and blockmatrices_channels against the closed
       form of the k -> 0 limit (exact Gaunt coefficients, 40 digits), interior and exterior, dielectric, Drude, plasma,
       perfectly conducting and magnetic bodies in any medium"""
    m, lmax = c["t"]["m"], c["t"]["lmax"]
    n = lmax-max(1, m)+1
    ld, MTE, MTM, tol = static(c, m)
    v = flat(geo.make(c).single_m_k0(m), 1, "single_m_k0")[0]
    close(v, ld, 1e-9, tol, "single_m_k0, m=%d" % m)
    close(flat(geo.make(c).single_m(m, np.array([0.0])), 1)[0], ld, 1e-9, tol, "single_m at k=0")
    A, B = [arr(x, (n, n), "zero-frequency block") for x in seq(geo.make(c).blockmatrices_k0(m), 2)]
    for name, X, R in (("TE", A, MTE), ("TM", B, MTM)):
        close(np.trace(X), trace(R), 1e-9, tol, "trace of the %s block" % name)
        close(np.trace(X@X), trace(R*R), 1e-9, tol, "trace of the squared %s block" % name)
    full = [k for k in geo.ks(c) if geo.in_range(c, k)]
    for ks in ([], full) if full else ([],):
        k = np.array([0.0]+ks)
        fr = Frozen(k=k)
        G = geo.make(c)
        got = flat(G.single_m(m, k), len(k))
        close(got[0], ld, 1e-9, tol, "first of single_m([0, ...])")
        Bl = [arr(x, (len(k), n, n), "block") for x in seq(G.blockmatrices(m, k), 4)]
        Ch = [arr(x, (len(k), n, n), "channel") for x in seq(G.blockmatrices_channels(m, k), 8)]
        fr.check()
        close(np.trace(Bl[0][0]), trace(MTE), 1e-9, tol, "EE block at k=0")
        close(np.trace(Bl[3][0]), trace(MTM), 1e-9, tol, "MM block at k=0")
        need(np.all(Bl[1][0] == 0) and np.all(Bl[2][0] == 0), "polarizations mix at k=0")
        close(np.trace(Ch[0][0]+Ch[1][0]), trace(MTE), 1e-9, tol, "EE channels at k=0")
        close(np.trace(Ch[2][0]+Ch[3][0]), trace(MTM), 1e-9, tol, "MM channels at k=0")
        need(all(np.all(x[0] == 0) for x in Ch[4:]), "mixing channels at k=0")
        tr = flat(geo.make(c).mSum_roundtrips(k, order=1), len(k))
        if c["t"]["lmax"] <= 2:
            S = [static(c, q) for q in range(c["t"]["lmax"]+1)]
            tt = 2*sum(x[3] for x in S)
            want = [-sum((1 if q == 0 else 2)*sum(trace(M**p)/p for M in S[q][1:3]) for q in range(len(S))) for p in (1, 2)]
            close(tr[0], want[0], 1e-9, tt, "one round trip at k=0")
            tr = flat(geo.make(c).mSum_roundtrips(k, order=2), len(k))
            close(tr[0], want[0]+want[1], 1e-9, 2*tt, "two round trips at k=0")
            if max(float(mp.mnorm(M, 'f')) for x in S for M in x[1:3]) < 0.5:
                tr = flat(geo.make(c, precision=1e-13, evaluation="trace").mSumme(k), len(k))
                close(tr[0], S[0][0]+2*sum(x[0] for x in S[1:]), 1e-9, 2*tt, "trace evaluation at k=0")
        if ks:
            rest = flat(geo.make(c).single_m(m, np.array(ks)), len(ks))
            close(got[1:], rest, 1e-11, 1e-15, "others of single_m([0, ...])")
            F = [arr(x, (len(k)-1, n, n), "block") for x in seq(geo.make(c).blockmatrices(m, np.array(ks)), 4)]
            for i in range(4):
                close(Bl[i][1:], F[i], 1e-12, 1e-300, "blocks at k>0 next to k=0")
    return geo.label(c)+","+"/".join(sorted({mats.kind(c["a"]), mats.kind(c["b"])}))


def s_large(tier):
    hi = 16 if tier == "quick" else 40
    return geo.case(tier, hi, hi+4, 1, shp=geo.shape((0.05, 3.0)))


@law("C09", s_large, 78, 1200)
def limit_large(c):
    """as limit, orders up to 20 (44)"""
    m = c["t"]["m"]
    ld, _, _, tol = static(c, m)
    close(flat(geo.make(c).single_m_k0(m), 1)[0], ld, 1e-9, tol, "single_m_k0, m=%d" % m)
    return geo.label(c)


@law("C09", lambda tier: geo.case(tier, 8, 8, 2), 300, 6000)
def m_sum(c):
    """mSumme_k0 is the sum over all m, up to the requested precision; mSumme([0, ...]) starts with it"""
    t = c["t"]
    lds = [static(c, m) for m in range(t["lmax"]+1)]
    full = lds[0][0]+2*sum(x[0] for x in lds[1:])
    tol = lds[0][3]+2*sum(x[3] for x in lds[1:])
    for p in (1e-4, 1e-13):
        v = flat(geo.make(c, precision=p).mSumme_k0(), 1)[0]
        # truncation at a relative change of precision/10: what is missing are the subspaces after such a step
        slack = missing([x[0] for x in lds], p)
        close(v, full, 1e-9, tol+slack, "mSumme_k0 at precision %g" % p)
    ks = [k for k in geo.ks(c) if geo.in_range(c, k)]
    z = flat(geo.make(c, precision=1e-13).mSumme(np.array([0.0]+ks)), 1+len(ks))
    close(z[0], full, 1e-9, tol, "first of mSumme([0, ...])")
    if ks:
        close(z[1:], flat(geo.make(c, precision=1e-13).mSumme(np.array(ks)), len(ks)), 1e-11, 1e-15, "others of mSumme([0, ...])")
    return geo.label(c) if t["lmax"] > 1 else None


def missing(lds, p):
    """largest possible remainder when the sum may stop once the relative change is below p/10 (with a margin for
       rounding in that decision)"""
    total = lds[0]
    worst = 0.0
    rest = 2*sum(lds[1:])
    for x in lds[1:]:
        total += 2*x
        rest -= 2*x
        if abs(2*x) <= 1.01*p/10*abs(total)+1e-15:
            worst = max(worst, abs(rest))
    return worst


def s_tr(tier):
    return st.fixed_dictionaries({"l": st.tuples(st.integers(1, 60), st.integers(1, 60), st.integers(0, 60)), "n": st.integers(1, 6),
                                  "med": gen.medium(), "L": gen.logf(0.05, 30), "ext": st.integers(0, 1)})


@law("C09", s_tr, 650, 10000)
def translation_limit(c):
    """the magnitudes of the zero-frequency translation coefficients are those of the leading power of kL, orders to 66"""
    la, lb, m = c["l"]
    m = min(m, la, lb)
    l1, l2 = la, lb
    lmin = max(1, m)
    V = translation(l1, l2, m, mats.make(c["med"]), c["L"], np.array([0.0]), c["ext"]).trans_ab()
    sgn, ln = [arr(x, (l1-lmin+1, l2-lmin+1), "translation") for x in seq(V, 2)]
    for a in sorted({l1, max(lmin, l1-c["n"]), lmin}):
        for b in sorted({l2, max(lmin, l2-c["n"]), lmin}):
            w = ref.static_translation(a, b, m, c["ext"])
            close(np.log(abs(sgn[a-lmin, b-lmin]))+ln[a-lmin, b-lmin], float(mp.log(abs(w))), 0, 1e-9,
                  "ln of coefficient (%d, %d, m=%d)" % (a, b, m))
    return ("ext" if c["ext"] else "int")+(",m=0" if m == 0 else ",m>0")


def s_approach(tier):
    return geo.case(tier, 4, 5, 1)


@law("C09", s_approach, 260, 4000)
def continuity(c):
    """ln det at decreasing finite wavenumbers approaches the zero-frequency value"""
    m = c["t"]["m"]
    G = geo.make(c)
    v0 = flat(G.single_m_k0(m), 1)[0]
    # the approach is governed by the slowest scale of the materials
    k = 1e-13*geo.kchar(c["s"])
    wk = float(flat(geo.make(c).single_m(m, np.array([k])), 1)[0])
    ld, _, tol = geo.lndet(c, k, m, 60)
    st_, _, _, tol0 = static(c, m)
    close(wk, v0, 1e-8, abs(ld-st_)+tol+tol0, "ln det at k=%g" % k)
    return geo.label(c) if abs(ld-st_) < 1e-6*abs(st_) else None


def s_ni(tier):
    return st.fixed_dictionaries({"c": geo.case(tier, 3, 4, 1, shp=geo.shape(internal=False)), "kind": st.sampled_from(["strat1", "strat2", "both", "coated"]),
                                  "d": gen.dielectric()})


@law("C09", s_ni, 130, 1000)
def not_implemented(c):
    """stratified and coated spheres have no analytic zero-frequency term: it is refused, not silently that of a solid
       sphere, and stays refused"""
    g = c["c"]
    s = g["s"]
    a, b, md = [mats.make(g[i]) for i in ("a", "b", "med")]
    d = mats.make(c["d"])
    r1, r2, m1, m2 = s["r1"], s["r2"], a, b
    if c["kind"] == "coated":
        G = geometry.CoatedSphereSphere(0.5*r1, r1, d, a, 0.5*r2, r2, d, b, s["L"], md, g["t"]["lmax"], g["t"]["lss"])
    else:
        if c["kind"] in ("strat1", "both"):
            r1, m1 = [0.5*r1, r1], [d, d, md]
        if c["kind"] in ("strat2", "both"):
            r2, m2 = [0.5*r2, r2], [d, d, md]
        G = geometry.SphereSphere(r1, r2, s["L"], m1, m2, md, lmax=g["t"]["lmax"], lssmax=g["t"]["lss"])
    for f, what in ((lambda: G.mSumme_k0(), "mSumme_k0"), (lambda: G.single_m_k0(g["t"]["m"]), "single_m_k0"),
                    (lambda: G.mSumme(np.array([0.0, 1.0])), "mSumme"), (lambda: G.mSumme_k0(), "second mSumme_k0")):
        raises(NotImplementedError, f, what)
    return c["kind"]
