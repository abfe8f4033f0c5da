"""C17: the Casimir force is minus the derivative of the free energy with respect to the distance."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import geo
import mats
import ref
import mie_common as mc
from core import law, arr, close, flat, need, seq, Frozen
from translation import translation
import geometry
import thermodynamics
import props.c08 as c08
import props.c16 as c16


def s_tr(tier):
    return st.fixed_dictionaries({"d": st.one_of(c08.dims(), c08.dims(), c08.dims(5, 10)), "med": c08.med(), "L": gen.logf(0.05, 30, special=(1.0,)),
                                  "k": gen.ks(1e-4, 50, 2), "ext": st.integers(0, 1)})


@law("C17", s_tr, 390, 6000)
def translation_derivative(c):
    """with the force flag the translation coefficients are the derivatives with respect to the distance of those without it
       (reference: differentiated 60 digit values), with the same scaling"""
    return derivatives(c)


def s_sel(tier):
    return c08.s_sel(tier).map(lambda c: dict(c, k=[max(k, 1e-4) for k in c["k"]]))


@law("C17", s_sel, 78, 1500)
def translation_derivative_high(c):
    """as translation_derivative for orders up to 45 (90) and any m: the largest pair of orders and chosen ones"""
    lmax, lss, m = c["d"]
    lmin = max(1, m)
    pairs = [(lmax, lss)]+[(lmin+int(round(f*(lmax-lmin))), lmin+int(round(g*(lss-lmin)))) for f, g in c["p"]]
    return derivatives(c, sorted(set(pairs)))


def derivatives(c, pairs=None):
    lmax, lss, m = c["d"]
    c["k"] = [k for k in c["k"] if c08.n_of(c, k)*k*c["L"] <= 1000]
    if not c["k"]:
        return None
    k = np.array(c["k"])
    lmin = max(1, m)
    V = [arr(v, (len(k), lmax-lmin+1, lss-lmin+1), "translation") for v in
         seq(translation(lmax, lss, m, mats.make(c["med"]), c["L"], k, c["ext"], 1).trans_ab(), 5)]
    with mp.workdps(60):
        h = mp.mpf(10)**-18
        for j, kj in enumerate(c["k"]):
            nk = mp.mpf(kj)*c08.n_of(c, kj)
            x = nk*mp.mpf(c["L"])
            for l1, l2 in pairs or [(l1, l2) for l1 in range(lmin, lmax+1) for l2 in range(lmin, lss+1)]:
                if True:
                    a, b = l1-lmin, l2-lmin
                    r = ref.translation(l1, l2, m, x, c["ext"], 60, True)
                    if r[4] == 0:
                        continue
                    hi, lo = [ref.translation(l1, l2, m, x*(1+d), c["ext"], 60) for d in (h, -h)]
                    s = np.exp(V[4][j, a, b]-float(mp.log(r[4])))
                    need(np.isfinite(s), "scaling of (%d, %d) is not finite" % (l1, l2))
                    scale = float((1+x+l1+l2)/c["L"])
                    sm = float(r[5]/r[4]) if m else 1.0
                    for q, name in enumerate(("EE_ab", "EE_ba", "EM_ab", "EM_ba")):
                        want = (hi[q]-lo[q])/(2*h*x)*nk/r[4]
                        close(V[q][j, a, b]*s, float(want), 0, 1e-9*scale*(1 if q < 2 else sm),
                              "derivative of %s(l1=%d, l2=%d, m=%d, x=%g)" % (name, l1, l2, m, x))
    return ("ext" if c["ext"] else "int")+(",m=0" if m == 0 else ",m>0")


def s_sum(tier):
    return geo.case(tier, 3, 4, 2)


@law("C17", s_sum, 208, 3200)
def derivative_of_lndet(c):
    """the force term at a wavenumber is minus the derivative of ln det(1-M), summed over all m, with respect to the distance of
       the centres (reference: differences of 50 digit determinants); exterior and interior, all classes of materials"""
    ks = [k for k in geo.ks(c) if geo.in_range(c, k, 3000)]
    if not ks:
        return None
    t, s = c["t"], c["s"]
    want, tol, done = [], [], []
    with mp.workdps(50):
        h = mp.mpf(10)**-14
        for k in ks:
            a, b, wa, wb, x = geo.coefficients(c, k, 50)
            w = d = mp.mpf(0)
            cond = 1.0
            for m in range(0, t["lmax"]+1):
                f = 1 if m == 0 else 2
                up, lo = [ref.lndet_m(m, t["lmax"], t["lss"], x*(1+e), a, b, s["ext"], 50)[0] for e in (h, -h)]
                d += f*(up-lo)/(2*h)
                w += f*ref.weight_m(m, t["lmax"], t["lss"], x, wa, wb, s["ext"])
                cond = min(cond, float(mp.exp(up)))
            want.append(float(-d/mp.mpf(s["L"])))
            cond = max(cond, 1e-3)
            tol.append((float(w)*geo.tol_rel(c, k)/cond**2+3e-15)*float(x+t["lmax"]+t["lss"]+1)/s["L"])
    k = np.array(ks)
    fr = Frozen(k=k)
    got = flat(geo.make(c, precision=1e-14).mSum_trace_dot(k), len(ks), "force terms")
    fr.check()
    close(got, want, 1e-8, 4*np.array(tol)+1e-13*np.abs(want).max(), "force terms")
    return geo.label(c)


def s_lt(tier):
    return geo.case(tier, 12 if tier == "quick" else 20, 14 if tier == "quick" else 24, 2, krange=(1e-2, 5), shp=geo.shape((0.05, 5.0)))


@law("C17", s_lt, 78, 1200)
def high_truncation(c):
    """orders up to 12 (20): the force terms are minus the derivative of the sum over m of ln det(1-M), sixth-order differences of
       the code's own values at neighbouring distances"""
    ks = [k for k in geo.ks(c) if geo.in_range(c, k, 3000) and geo.tol_rel(c, k) < 1e-8]
    if not ks:
        return None
    k, s = np.array(ks), c["s"]
    h = min(0.02/geo.kchar(s), s["L"]/10)
    f = {i: flat(geo.make(dict(c, s=dict(s, L=s["L"]+i*h)), precision=1e-14).mSumme(k), len(ks)) for i in (-3, -2, -1, 1, 2, 3)}
    want = -(45*(f[1]-f[-1])-9*(f[2]-f[-2])+(f[3]-f[-3]))/(60*h)
    four = -(8*(f[1]-f[-1])-(f[2]-f[-2]))/(12*h)
    got = flat(geo.make(c, precision=1e-14).mSum_trace_dot(k), len(ks), "force terms")
    tol = 0.1*np.abs(want-four)+1e-8*np.abs(want)+1e-9*np.abs(f[1])/h+1e-12/h
    close(got, want, 0, tol, "force terms, lmax=%d" % c["t"]["lmax"])
    return geo.label(c)+(",l>4" if c["t"]["lmax"] > 4 else "")


def s_thermo(tier):
    return st.fixed_dictionaries({"c": c16.s_geo(tier), "dT": gen.logf(0.1, 3), "nmax": st.integers(0, 6), "nT": st.integers(1, 5),
                                  "first": st.booleans()})


@law("C17", s_thermo, 260, 4000)
def force_from_free_energy(c):
    """force() is minus the derivative of free_energy() with respect to the centre distance at every temperature (reference:
       fourth-order differences of the free energies of neighbouring distances); also for coated and layered spheres, and after
       the free energy of the same calculation was asked for"""
    dT0, nmax, nT, first, g = c["dT"], c["nmax"], c["nT"], c["first"], c["c"]
    g["ev"] = "lndet"
    s = g["s"]
    dT = float("%.5g" % (dT0*geo.kchar(s)))
    if not c16.ok(g, dT, nmax):
        return None
    gap = 1/geo.kchar(s)
    h = min(0.02*gap, s["L"]/10)

    def thermo(L):
        return thermodynamics.finiteT(dT, nmax, dT*nT, c16.build(dict(g, s=dict(s, L=L))), False)
    f = {i: flat(thermo(s["L"]+i*h).free_energy(), nT, "free energy") for i in (-2, -1, 1, 2)}
    want = -(8*(f[1]-f[-1])-(f[2]-f[-2]))/(12*h)
    wide = -(f[2]-f[-2])/(4*h)
    F = thermo(s["L"])
    if first:
        F.free_energy()
    got = flat(F.force(), nT, "force")
    tol = 2e-2*np.abs(want-wide)+1e-6*np.abs(want)+1e-10*np.abs(f[1]).max()/h+1e-13*dT*nT*(nmax+1)/h
    close(got, want, 0, tol, "force")
    return c16.kind_of(g)+(",ext" if s["ext"] else ",int")+(",n=0 only" if nmax == 0 else "")


def s_terms(tier):
    def f(dT, nmax):
        return st.fixed_dictionaries({"c": c16.s_geo(tier), "dT": dT, "nmax": nmax, "nT": st.integers(1, 7), "an": st.booleans()})
    few = f(gen.logf(0.1, 3), st.integers(0, 12))
    return st.one_of(few, few, few, f(gen.logf(0.003, 0.1), st.integers(45, 110)))


@law("C17", s_terms, 195, 3000)
def matsubara_sum(c):
    """force() at the i-th multiple of the lowest temperature is i*dT times the sum of every i-th force term, the zeroth with
       weight one half; every term from a wavenumber and a geometry of its own"""
    dT0, nmax, nT, an, g = c["dT"], c["nmax"], c["nT"], c["an"], c["c"]
    dT = float("%.5g" % (dT0*geo.kchar(g["s"])))
    if not c16.ok(g, dT, nmax):
        return None
    f = np.array([(0.5 if n == 0 else 1)*flat(c16.build(g).mSum_trace_dot(np.array([n*dT if n else 1e-10])), 1)[0] for n in range(nmax+1)])
    got = flat(thermodynamics.finiteT(dT, nmax, dT*nT, c16.build(g), an).force(), nT, "force")
    want = np.array([(i*dT)*sum(f[j] for j in range(0, nmax+1, i)) for i in range(1, nT+1)])
    close(got, want, 1e-8, 1e-9*np.abs(f).max()*dT*nT*(nmax+1)+1e-15, "force")
    return c16.kind_of(g)+(",n=0 only" if nmax == 0 else ",several slices" if nmax >= 50 else "")


def s_dir(tier):
    return st.fixed_dictionaries({"s": geo.shape((0.05, 20.0), internal=False), "a": gen.dielectric(), "b": st.one_of(gen.dielectric(), gen.drude(), gen.plasma()),
                                  "med": gen.VAC, "t": geo.trunc(4, 5), "q": gen.ks(1e-2, 5, 2)})


@law("C17", s_dir, 390, 6000)
def attraction(c):
    """non-magnetic bodies in vacuum attract (negative force at every frequency); the order of the spheres does not matter"""
    ks = [k for k in geo.ks(c) if geo.in_range(c, k, 3000)]
    if not ks:
        return None
    c["t"]["lss"] = c["t"]["lmax"]
    f = flat(geo.make(c, precision=1e-14).mSum_trace_dot(np.array(ks)), len(ks))
    s, t = c["s"], c["t"]
    g = flat(geometry.SphereSphere(s["r2"], s["r1"], s["L"], mats.make(c["b"]), mats.make(c["a"]), mats.make(c["med"]),
                                   lmax=t["lss"], lssmax=t["lmax"], precision=1e-14).mSum_trace_dot(np.array(ks)), len(ks))
    tol = 1e-13/s["L"]+np.array([1e-6 if geo.tol_rel(c, k) > 1e-8 else 1e-8 for k in ks])*np.abs(f)
    need(np.all(f < tol), "repulsive force terms %r" % f)
    close(g, f, 0, tol, "force with the spheres interchanged")
    return "attractive"
