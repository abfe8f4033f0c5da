"""C16: free energy, entropy and zero-temperature energy from the Matsubara terms."""
import numpy as np
import scipy.integrate
from hypothesis import strategies as st
import gen
import geo
import mats
from core import law, arr, close, flat, need, raises, seq, Violation
import geometry
import materials
import thermodynamics

NAMES = ["PerfectConductor", "Gold", "Altern1Ps", "Gold_plasma", "Silicon", "Mercury", "Water", "Vacuum", "Polystyrene", "MercurySmith"]


def lib():
    return st.one_of(gen.opaque(gen.lib(NAMES)), gen.opaque(gen.lib(NAMES)), gen.opaque(geo.body()))


def s_geo(tier, hi=3):
    return st.fixed_dictionaries({"s": geo.shape((0.1, 20.0)), "a": lib(), "b": lib(), "med": st.one_of(gen.VAC, gen.opaque(gen.medium())),
                                  "t": geo.trunc(hi, hi+1), "kind": st.sampled_from(["solid", "solid", "solid", "solid", "strat", "strat2", "strat12", "coated"]), "d": gen.lib(["Water", "Silicon", "Ptfe"]),
                                  "ev": st.sampled_from(["lndet", "lndet", "lndet", "trace"])})


def kind_of(c):
    """layers of the outer one of two nested spheres are not claimed"""
    if c["s"]["ext"]:
        return c["kind"]
    return "strat" if "strat" in c["kind"] else "solid"


def build(c, p=1e-14):
    s, t = c["s"], c["t"]
    kind = kind_of(c)
    a, b, md, d = [mats.make(c[i]) for i in ("a", "b", "med", "d")]
    a_ = d if mats.is_pec(c["a"]) else a
    b_ = d if mats.is_pec(c["b"]) else b
    if kind == "coated":
        return geometry.CoatedSphereSphere(0.5*s["r1"], s["r1"], d, a_, 0.6*s["r2"], s["r2"], d, b_, s["L"], md, t["lmax"], t["lss"])
    r1, m1 = ([0.5*s["r1"], s["r1"]], [d, a_, md]) if kind in ("strat", "strat12") else (s["r1"], a)
    r2, m2 = ([0.4*s["r2"], 0.7*s["r2"], s["r2"]], [a_, d, b_, md]) if kind in ("strat2", "strat12") else (s["r2"], b)
    return geometry.SphereSphere(r1, r2, s["L"], m1, m2, md, lmax=t["lmax"], lssmax=t["lss"], precision=p,
                                 evaluation=c["ev"] if kind == "solid" else "lndet")


def analytic(c, flag):
    return bool(flag) and kind_of(c) == "solid"


def terms(c, dT, nmax, an):
    """the Matsubara terms, one wavenumber and one geometry at a time; the zeroth one with weight one half"""
    out = []
    for n in range(nmax+1):
        G = build(c)
        if n == 0:
            out.append(0.5*flat(G.mSumme_k0() if analytic(c, an) else G.mSumme(np.array([1e-10])), 1)[0])
        else:
            out.append(flat(G.mSumme(np.array([n*dT])), 1)[0])
    return np.array(out)


def ok(c, dT, nmax):
    if dT < 1e-6:
        return False
    return all(geo.in_range(c, k, 3000) for k in (1e-10, dT, dT*max(nmax, 1)))


def s_sum(tier):
    return st.fixed_dictionaries({"c": s_geo(tier), "dT": gen.logf(0.1, 3), "nmax": st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(0, 30), st.integers(30, 110)), "nT": st.one_of(st.integers(2, 7), st.integers(2, 40), st.integers(30, 120)), "an": st.booleans(),
                                  "frac": gen.unif(-0.4, 0.4)})


def tol_of(f):
    return 1e-9*np.abs(f).max()+1e-12


@law("C16", s_sum, 300, 6000)
def matsubara_sum(c):
    """free_energy at the i-th multiple of the lowest temperature is i*dT times the sum of every i-th Matsubara term, the zeroth
       with weight one half and evaluated analytically where that is possible and asked for; entropy is minus its derivative
       (second-order differences, one-sided at the ends); their number is Tmax/dT"""
    dT0, nmax, nT, an, frac, c = c["dT"], c["nmax"], c["nT"], c["an"], c["frac"], c["c"]
    dT = float("%.5g" % (dT0*geo.kchar(c["s"])))
    if not ok(c, dT, nmax):
        return None
    f = terms(c, dT, nmax, an)
    if c["ev"] == "trace" and kind_of(c) == "solid" and (not np.all(np.isfinite(f)) or np.abs(f).max() > 0.5):
        return None         # the expansion in round trips need not converge
    F = thermodynamics.finiteT(dT, nmax, dT*(nT+frac), build(c), an)
    got = flat(F.free_energy(), nT, "free_energy")
    want = np.array([(i*dT)*sum(f[j] for j in range(0, nmax+1, i)) for i in range(1, nT+1)])
    t = tol_of(f)*dT*nT*(nmax+1)
    close(got, want, 1e-8, t, "free energy")
    S = flat(thermodynamics.finiteT(dT, nmax, dT*(nT+frac), build(c), an).entropy(), nT, "entropy")
    w = np.empty(nT)
    w[1:-1] = -(want[2:]-want[:-2])/(2*dT)
    w[0], w[-1] = -(want[1]-want[0])/dT, -(want[-1]-want[-2])/dT
    close(S, w, 1e-7, 4*t/dT+1e-8*np.abs(want).max()/dT, "entropy")
    return kind_of(c)+","+c["ev"]+(",n=0 only" if nmax == 0 else "")


def s_sl(tier):
    return st.fixed_dictionaries({"lo": st.integers(0, 120), "n": st.integers(0, 230), "step": st.one_of(st.integers(1, 300), st.sampled_from([50, 49, 51, 1])), "as": st.sampled_from(["int", "float", "str"])})


@law("C16", s_sl, 600, 12000)
def slices(c):
    """slicewise_eval gives func(nmin..nmax), one value per integer, for every slice length, calling func with consecutive
       integers of at most that many, each exactly once"""
    lo, hi, step = c["lo"], c["lo"]+c["n"], c["step"]
    calls = []

    def f(n):
        n = np.asarray(n)
        if n.dtype.kind not in "iu":
            raise Violation("func is called with %s instead of integers" % n.dtype)
        calls.append(n.copy())
        return np.cos(n)+n
    arg = step if c["as"] == "int" else float(step) if c["as"] == "float" else str(step)
    r = flat(thermodynamics.slicewise_eval(f, lo, hi, arg), hi-lo+1, "slicewise_eval")
    n = np.arange(lo, hi+1)
    close(r, np.cos(n)+n, 1e-15, 0, "slicewise_eval")
    need(np.array_equal(np.sort(np.concatenate(calls)), n), "not every integer is evaluated once")
    need(max(len(x) for x in calls) <= step, "a slice is longer than %d" % step)
    need(all(np.all(np.diff(x) == 1) for x in calls), "a slice is not consecutive")
    for bad in (0, -step, "x", "%d.5" % step):
        raises(ValueError, lambda: thermodynamics.slicewise_eval(f, lo, hi, bad), "slice length %r" % bad)
    return "several" if len(calls) > 1 else "one"


def s_long(tier):
    return st.fixed_dictionaries({"c": s_geo(tier, 2), "dT": gen.logf(0.02, 0.3), "nmax": st.one_of(st.integers(40, 60), st.sampled_from([49, 50, 51, 99, 100, 101])), "an": st.booleans(),
                                  "step": st.sampled_from([1, 2, 7, 49, 51, 200]), "nmin": st.integers(0, 60), "pick": st.lists(st.integers(0, 10**6), min_size=4, max_size=4)})


@law("C16", s_long, 120, 2400)
def long_sums(c):
    """the Matsubara terms do not depend on how the frequencies are cut into slices, nor on the lowest one asked for, also
       beyond the default slice of 50"""
    nmax, an, step, pick, dT0, nmin, c = c["nmax"], c["an"], c["step"], c["pick"], c["dT"], c["nmin"], c["c"]
    c["ev"] = "lndet"
    dT = float("%.5g" % (dT0*geo.kchar(c["s"])))
    if not ok(c, dT, nmax):
        return None
    f = flat(thermodynamics.finiteT(dT, nmax, dT, build(c), an).get_f_matsubaras(0), nmax+1, "get_f_matsubaras")
    g = flat(thermodynamics.finiteT(dT, nmax, dT, build(c), an).get_f_matsubaras(0, step), nmax+1, "get_f_matsubaras")
    t = tol_of(f)
    close(g, f, 1e-8, t, "Matsubara terms in slices of %d and 50" % step)
    lo = min(nmin, nmax)
    h = flat(thermodynamics.finiteT(dT, nmax, dT, build(c), an).get_f_matsubaras(lo), nmax+1-lo, "get_f_matsubaras")
    close(h, f[lo:], 1e-8, t, "Matsubara terms from %d on" % lo)
    for n in sorted({p % (nmax+1) for p in pick} | {0, 1, min(50, nmax), nmax}):
        G = build(c)
        if n:
            w = flat(G.mSumme(np.array([n*dT])), 1)[0]
        else:
            w = 0.5*flat(G.mSumme_k0() if analytic(c, an) else G.mSumme(np.array([1e-10])), 1)[0]
        close(f[n], w, 1e-8, t, "Matsubara term %d" % n)
    F = flat(thermodynamics.finiteT(dT, nmax, dT, build(c), an).free_energy(), 1)
    close(F, [dT*f.sum()], 1e-9, 1e-15, "free energy")
    return kind_of(c)+(",n>50" if nmax > 50 else ",n<=50")


def s_n0(tier):
    return st.fixed_dictionaries({"s": geo.shape((0.1, 20.0)), "a": gen.lib([n for n in NAMES if n != "MercurySmith"]), "b": gen.lib(NAMES), "med": gen.lib(["Vacuum", "Water", "Ethanol"]),
                                  "t": geo.trunc(3, 4)})


@law("C16", s_n0, 150, 3000)
def zeroth_term(c):
    """analytic and numerical zero-frequency term agree"""
    dT = geo.kchar(c["s"])
    a = [flat(thermodynamics.finiteT(dT, 0, dT, geo.make(c, precision=1e-13), an).free_energy(), 1)[0] for an in (True, False)]
    close(a[1], a[0], 1e-4, 1e-13, "numerical versus analytic zero-frequency term")
    return geo.label(c)


def s_e0(tier):
    N = ["PerfectConductor", "Gold", "Gold_plasma", "Silicon", "Polystyrene"]
    g = st.fixed_dictionaries({"s": geo.shape((0.2, 20.0)), "a": gen.lib(N), "b": gen.lib(N), "med": gen.VAC,
                               "t": geo.trunc(1, 2), "kind": st.sampled_from(["solid", "solid", "strat", "strat2", "coated"]), "d": gen.lib(["Silicon", "Ptfe"]),
                               "ev": st.just("lndet")})
    return st.fixed_dictionaries({"c": g, "b": gen.logf(0.3, 6), "m": gen.unif(0.1, 0.9), "n": st.integers(1, 6), "dT": gen.logf(0.2, 2)})


@law("C16", s_e0, 24, 600)
def zero_temperature(c):
    """e0 and F_zero_T are the integral of ln det over all wavenumbers (reference: composite Gauss-Legendre rule on the values of
       a fresh geometry); integrals over adjacent intervals add up; the free energy approaches them"""
    b0, mid, n, dT0, c = c["b"], c["m"], c["n"], c["dT"], c["c"]
    c["ev"] = "lndet"
    kc = geo.kchar(c["s"])
    for n_ in ("r1", "r2", "L"):        # unit surface distance: the quadrature works with absolute errors
        c["s"][n_] = float("%.8g" % (c["s"][n_]*kc))
    kc = geo.kchar(c["s"])
    if not ok(c, kc*1e-3, 100000):
        return None
    dT = float("%.5g" % (dT0*kc))
    x, w = np.polynomial.legendre.leggauss(12)
    edges = np.concatenate([[0], kc*np.logspace(-6, np.log10(25.0), 30)])
    k = np.concatenate([(b-a)/2*x+(a+b)/2 for a, b in zip(edges[:-1], edges[1:])])
    wt = np.concatenate([(b-a)/2*w for a, b in zip(edges[:-1], edges[1:])])
    if not geo.in_range(c, edges[-1], 2e4):
        return None
    vals = np.concatenate([flat(build(c).mSumme(k[i:i+60]), len(k[i:i+60])) for i in range(0, len(k), 60)])
    want = float((vals*wt).sum())
    F = thermodynamics.finiteT(dT, n, dT, build(c))
    e = arr(F.e0(), (1, 2), "e0")
    mag = np.abs(vals).max()*kc
    close(e[0, 0], want, 1e-5, 2e-8+1e-7*mag, "e0")
    z = seq(F.F_zero_T(), 2, "F_zero_T")
    close(float(z[0]), want, 1e-5, 2e-8+1e-7*mag, "F_zero_T")
    b = b0*kc
    parts = [arr(F.e0(*i), (1, 2))[0, 0] for i in ((0, mid*b), (mid*b, b), (0, b))]
    close(parts[0]+parts[1], parts[2], 1e-5, 5e-8+1e-7*mag, "e0 over adjacent intervals")
    close(arr(F.e0(0, None), (1, 2))[0, 0], arr(F.e0(0, n*dT), (1, 2))[0, 0], 1e-9, 1e-15, "e0 up to the last Matsubara frequency")
    return kind_of(c) if abs(want) > 1e-6 else None


def s_lim(tier):
    return st.fixed_dictionaries({"s": geo.shape((0.3, 10.0)), "a": gen.lib(["PerfectConductor", "Gold_plasma", "Silicon"]),
                                  "b": gen.lib(["PerfectConductor", "Gold_plasma", "Silicon"]), "med": gen.VAC, "t": geo.trunc(2, 3),
                                  "ev": st.just("lndet")})


@law("C16", s_lim, 40, 400)
def low_temperature_limit(c):
    """the free energy at decreasing temperatures approaches the zero-temperature energy"""
    kc = geo.kchar(c["s"])
    if not geo.in_range(c, 20*kc):
        return None
    k1 = 1/(c["s"]["L"]+c["s"]["r1"]+c["s"]["r2"])
    # low compared with the frequencies of the materials, too (infrared resonances of silicon, plasma frequency)
    libs = {c["a"].get("lib"), c["b"].get("lib")}
    dT = min(0.1*kc, 0.1*k1, 0.02 if "Silicon" in libs else 2.0 if "Gold_plasma" in libs else 1e9)
    nmax = int(8*kc/dT)
    if nmax > 2500:
        return None
    F = thermodynamics.finiteT(dT, nmax, 2*dT, geo.make(c, precision=1e-9))
    f = flat(F.free_energy(), 2)
    e = arr(F.e0(0, nmax*dT), (1, 2))[0, 0]
    close(f[0], e, 5e-3, 1e-8, "free energy at temperature %g and zero" % dT)
    return geo.label(c)


def s_one(tier):
    return st.fixed_dictionaries({"c": s_geo(tier), "dT": gen.logf(0.1, 3), "nmax": st.integers(0, 12), "nT": st.integers(1, 5), "step": st.sampled_from([1, 3, 50])})


@law("C16", s_one, 100, 2000)
def one_round_trip(c):
    """the single round-trip calculation sums minus the trace of the round-trip operator in the same way"""
    dT0, nmax, nT, step, c = c["dT"], c["nmax"], c["nT"], c["step"], c["c"]
    dT = float("%.5g" % (dT0*geo.kchar(c["s"])))
    c["ev"] = "lndet"
    if not ok(c, dT, nmax):
        return None
    f = []
    for n in range(nmax+1):
        G = build(c)
        tr = 0
        for m in range(c["t"]["lmax"]+1):
            B = G.blockmatrices(m, np.array([n*dT if n else 1e-10]))
            tr += (1 if m == 0 else 2)*(np.trace(B[0][0])+np.trace(B[3][0]))
        f.append(-tr*(1 if n else 0.5))
    f = np.array(f)
    got = flat(thermodynamics.oneRoundtrip(dT, nmax, dT*nT, build(c)).free_energy(), nT)
    want = np.array([(i*dT)*f[::i].sum() for i in range(1, nT+1)])
    close(got, want, 1e-9, 1e-13*(1+np.abs(f).max())*dT*nT*(nmax+1), "single round-trip free energy")
    g = flat(thermodynamics.oneRoundtrip(dT, nmax, dT*nT, build(c)).get_f_matsubaras(0, step), nmax+1)
    close(g, f, 1e-9, 1e-13*(1+np.abs(f).max()), "single round-trip Matsubara terms")
    return kind_of(c)


def s_konv(tier):
    return st.fixed_dictionaries({"r1": gen.logf(0.5, 2), "r2": gen.logf(0.5, 2), "g": gen.logf(0.5, 5), "a": gen.lib(NAMES[:6]), "b": gen.lib(NAMES[:6]), "l": st.tuples(st.integers(1, 2), st.integers(1, 2), st.integers(0, 1), st.integers(0, 1))})


@law("C16", s_konv, 16, 300)
def convergence_measure(c):
    """l_konvergenz returns the relative change of the zero-temperature energy between two truncations and the first energy"""
    L = c["r1"]+c["r2"]+c["g"]
    a, b, V = mats.make(c["a"]), mats.make(c["b"]), materials.Vacuum
    l1, l2, d1, d2 = c["l"]
    any_G = geometry.SphereSphere(1.0, 1.0, 3.0, V, V, V, lmax=1, lssmax=1)
    r = seq(thermodynamics.finiteT(1.0, 1, 1.0, any_G).l_konvergenz(c["r1"], c["r2"], L, a, b, V, l1+d1, l2+d2, l1, l2), 2)
    E = []
    for l, d in ((l1, d1), (l2, d2)):
        G = geometry.SphereSphere(c["r1"], c["r2"], L, a, b, V, lmax=l, lssmax=l+d)
        E.append(arr(thermodynamics.finiteT(1.0, 1, 1.0, G).e0(), (1, 2))[0, 0])
    close(float(r[1]), E[0], 1e-9, 1e-12, "energy of the first truncation")
    close(float(r[0]), (E[0]-E[1])/E[1], 1e-6, 1e-8, "relative change")
    return "l%d%d" % (l1, l2)
