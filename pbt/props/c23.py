"""C23: known limits of the interaction of two spheres: dipoles at large distance, proximity force approximation at small one."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import geo
import mats
from core import law, close, flat, need
import PFA
import geometry
import thermodynamics


def polarizabilities(spec, med, k):
    """(electric, magnetic) polarizability of a small sphere per volume R**3, and its squared refractive index"""
    em, mm = [float(v) for v in mats.response(med, k)]
    if mats.is_pec(spec):
        return 1.0, -0.5, 0.0
    e, m = [float(v) for v in mats.response(spec, k)]
    return (e-em)/(e+2*em), (m-mm)/(m+2*mm), e*m


def dipoles(a, b, x, m):
    """ln det(1-M) of two point dipoles with polarizabilities in units of d**3, for projection m, and its size"""
    E, B, C = a[0]*b[0]+a[1]*b[1], x*x*(1+x)**2, a[0]*b[1]+a[1]*b[0]
    ex = np.exp(-2*x)
    if m == 0:
        return -4*E*(1+x)**2*ex, 4*(abs(a[0]*b[0])+abs(a[1]*b[1]))*(1+x)**2*ex
    return (-E*(1+x+x*x)**2+C*B)*ex, ((abs(a[0]*b[0])+abs(a[1]*b[1]))*(1+x+x*x)**2+(abs(a[0]*b[1])+abs(a[1]*b[0]))*B)*ex


def bodies():
    return st.one_of(gen.dielectric(gen.MAYBE_B, 2), gen.const((1.0, 100.0), (0.1, 10.0)), gen.PEC, gen.lib(["Silicon", "Polystyrene", "Water", "Ethanol"]))


def s_dip(tier):
    return st.fixed_dictionaries({"a": bodies(), "b": bodies(), "med": st.one_of(gen.VAC, gen.const((1.0, 10.0), (0.2, 5.0)), gen.dielectric(gen.MAYBE_B, 1)),
                                  "r1": gen.logf(0.01, 10), "q": gen.logf(0.3, 3, special=(1.0,)), "far": gen.logf(10, 60), "x": gen.logf(1e-3, 12), "lmax": st.integers(1, 3), "m": st.integers(0, 1)})


@law("C23", s_dip, 2000, 40000)
def large_distance(c):
    """two spheres far apart (10 to 60 radii) interact like point dipoles with the electric and magnetic polarizabilities of
       the spheres, for each projection and in total, at any ratio of distance and wavelength; non-trivial: the neglected orders
       are below 30 percent"""
    r1 = c["r1"]
    r2 = float("%.5g" % (r1*c["q"]))
    d = float("%.6g" % (c["far"]*max(r1, r2)))
    k = c["x"]/d
    em, mm = [float(v) for v in mats.response(c["med"], k)]
    k = float("%.6g" % (k/np.sqrt(em*mm)))
    em, mm = [float(v) for v in mats.response(c["med"], k)]
    n2 = em*mm
    x = float(np.sqrt(n2))*k*d
    pa, pb = polarizabilities(c["a"], c["med"], k), polarizabilities(c["b"], c["med"], k)
    err = (20 if c["lmax"] > 1 else 0.1)/c["far"]**2+(1+x)*3*sum((p[2]+n2)*(k*r)**2 for p, r in ((pa, r1), (pb, r2)))
    # permittivity times (k R)**2 admixes electric into magnetic response
    mix = sum((abs(float(mats.response(s, k)[0] or 0))+n2+mm)*(k*r)**2 for s, r in ((c["a"], r1), (c["b"], r2)))
    if err+mix > 0.3 or x > 12 or x < 1e-4:
        return None
    a, b = [pa[0]*(r1/d)**3, pa[1]*(r1/d)**3], [pb[0]*(r2/d)**3, pb[1]*(r2/d)**3]
    G = geometry.SphereSphere(r1, r2, d, mats.make(c["a"]), mats.make(c["b"]), mats.make(c["med"]), lmax=c["lmax"], lssmax=c["lmax"], precision=1e-14)
    big = (r1*r2/d**2)**3
    size0 = 6*(1+x+x*x)**2*np.exp(-2*x)*big
    tol = err*size0*(abs(pa[0])+abs(pa[1])+1e-2)*(abs(pb[0])+abs(pb[1])+1e-2)+mix*size0*(abs(pa[0])+abs(pb[0])+abs(pa[1])+abs(pb[1]))+1e-3*mix*size0
    want, _ = dipoles(a, b, x, c["m"])
    got = flat(G.single_m(c["m"], np.array([k])), 1)
    rnd = 4e-15
    close(got, [want], 0, tol+rnd, "ln det for m=%d at x=%g" % (c["m"], x))
    want = dipoles(a, b, x, 0)[0]+2*dipoles(a, b, x, 1)[0]
    total = flat(G.mSumme(np.array([k])), 1)
    close(total, [want], 0, 3*tol+rnd, "ln det summed over m at x=%g" % x)
    return "m=%d,%s/%s" % (c["m"], mats.kind(c["a"]), mats.kind(c["b"])) if abs(want) > 10*tol+100*rnd else None


def s_static(tier):
    b = st.one_of(bodies(), gen.drude(gen.MAYBE_B), gen.plasma(), gen.lib(["Gold", "Gold_plasma", "Mercury"]))
    return st.fixed_dictionaries({"a": b, "b": b, "med": st.one_of(gen.VAC, gen.const((1.0, 10.0), (0.2, 5.0)), gen.dielectric(gen.MAYBE_B, 2)),
                                  "r1": gen.logf(0.01, 10), "q": gen.logf(0.1, 10, special=(1.0,)), "g": gen.logf(0.05, 100)})


def static_polarizabilities(spec, med, r):
    """(electric, magnetic) at zero frequency per R**3; electric and magnetic problems decouple"""
    _, em, mm, _ = mats.static(med)
    kind, e, m, kp = mats.static(spec)
    if kind == "pec":
        return mp.mpf(1), mp.mpf(-1)/2
    alpha = mp.mpf(1) if kind in ("drude", "plasma") else (e-em)/(e+2*em)
    if kind == "plasma":
        # London equation: field inside ~ i_1(kp r), mu of the metal is one here
        y = kp*mp.mpf(r)
        t = 3*(y*mp.coth(y)-1)/y**2         # -> 1 for y -> 0
        mu = 2*t/(3-t)                      # effective permeability of the London sphere
        return alpha, (mu-mm)/(mu+2*mm)
    return alpha, (m-mm)/(m+2*mm)


@law("C23", s_static, 400, 8000)
def static_dipoles(c):
    """with dipoles only, the zero-frequency term is exactly that of two electrostatic and two magnetostatic dipoles,
       ln(1-4p)+2ln(1-p) with p the product of polarizabilities over the sixth power of the distance, at any distance and for
       every class of materials (superconducting sphere for the plasma model)"""
    r1 = c["r1"]
    r2 = float("%.5g" % (r1*c["q"]))
    d = float("%.7g" % (r1+r2+c["g"]*min(r1, r2)))
    with mp.workdps(40):
        a, b = static_polarizabilities(c["a"], c["med"], r1), static_polarizabilities(c["b"], c["med"], r2)
        f = (mp.mpf(r1)*mp.mpf(r2)/mp.mpf(d)**2)**3
        want = float(sum(mp.log(1-4*f*u*v)+2*mp.log(1-f*u*v) for u, v in zip(a, b)))
    G = geometry.SphereSphere(r1, r2, d, mats.make(c["a"]), mats.make(c["b"]), mats.make(c["med"]), lmax=1, lssmax=1, precision=1e-14)
    got = flat(G.mSumme_k0(), 1)
    close(got, [want], 1e-7, 4e-15, "zero-frequency term")
    return "%s/%s/%s" % (mats.kind(c["a"]), mats.kind(c["b"]), mats.kind(c["med"])) if abs(want) > 1e-12 else None


def s_ret(tier):
    b = st.one_of(gen.PEC, gen.const((1.0, 50.0), (0.1, 10.0)))
    return st.fixed_dictionaries({"a": b, "b": b, "med": st.one_of(gen.VAC, gen.const((1.0, 5.0), (0.3, 3.0))), "r1": gen.logf(0.01, 0.1), "q": gen.logf(0.4, 2.5, special=(1.0,)),
                                  "far": gen.logf(30, 60)})


@law("C23", s_ret, 120, 2400)
def retarded_energy(c):
    """at zero temperature and large distance the energy is the Casimir-Polder one,
       -[23(EE+MM)-7(EM+ME)]/(2 n d^7) with the products of static polarizabilities; non-trivial: above 1e-9"""
    r1 = c["r1"]
    r2 = float("%.5g" % (r1*c["q"]))
    d = float("%.6g" % (c["far"]*max(r1, r2)))
    em, mm = [float(v) for v in mats.response(c["med"], 1.0)]
    n = np.sqrt(em*mm)
    pa, pb = polarizabilities(c["a"], c["med"], 1.0), polarizabilities(c["b"], c["med"], 1.0)
    if max(pa[2], pb[2], n*n)/c["far"]**2 > 0.02:
        return None
    G = geometry.SphereSphere(r1, r2, d, mats.make(c["a"]), mats.make(c["b"]), mats.make(c["med"]), lmax=1, lssmax=1, precision=1e-14)
    got = flat(thermodynamics.finiteT(1.0, 3, 1.0, G, False).e0(), 2)[:1]
    v = (r1*r2)**3/(2*n*d**7)
    E, C = pa[0]*pb[0]+pa[1]*pb[1], pa[0]*pb[1]+pa[1]*pb[0]
    want = -v*(23*E-7*C)
    small = 40*max(max(pa[2], pb[2])*max(1, em), n*n*max(em, mm))/c["far"]**2
    close(got, [want], 0, v*30*((0.02+small)*(abs(pa[0])+abs(pa[1]))*(abs(pb[0])+abs(pb[1]))+small*0.05)+1e-11, "retarded energy")
    return "pec" if mats.is_pec(c["a"]) and mats.is_pec(c["b"]) else "constant"


def s_pfa(tier):
    b = st.one_of(gen.lib(["Gold", "Silicon", "Polystyrene", "PerfectConductor", "Gold_plasma"]), gen.const((2.0, 100.0), (1.0, 1.0)))
    return st.fixed_dictionaries({"a": b, "b": b, "r1": gen.logf(0.3, 3), "q": gen.logf(1.0, 2.0, special=(1.0,)), "swap": st.booleans(), "int": st.booleans(), "TL": gen.unif(2.0, 6.0)})


@law("C23", s_pfa, 24, 300)
def proximity_force(c):
    """when the gap shrinks from 0.5 to 0.25 of the smaller radius, at constant ratio of gap and thermal wavelength, the free energy
       comes closer to the proximity force approximation, and is within 60 (interior 90) percent of it; exterior and interior"""
    r1 = c["r1"]
    if c["int"]:
        r2 = float("%.5g" % (r1*(1.6+c["q"])))
    else:
        r2 = float("%.5g" % (r1*c["q"]))
        if c["swap"]:
            r1, r2 = r2, r1
    a, b, v = mats.make(c["a"]), mats.make(c["b"]), mats.make({"e": [], "b": []})
    dev = []
    for eps in (0.5, 0.25):
        gap = eps*min(r1, r2)
        d = r2-r1-gap if c["int"] else r1+r2+gap
        T = c["TL"]/gap
        l = int(5/eps)+3
        l1, l2 = (int(l*r1/min(r1, r2)), int(l*r2/min(r1, r2)))
        G = geometry.SphereSphere(r1, r2, d, a, b, v, lmax=l1, lssmax=max(l1, l2), precision=1e-6)
        E = float(flat(thermodynamics.finiteT(T, 4, T, G, True).free_energy(), 1)[0])
        P = float(flat(PFA.SphereSpherePFA(a, b, v).spheresphereEnergy(r1, r2, T, d), 1)[0])
        need(E < 0 and P < 0, "no attraction: %g, proximity force approximation %g" % (E, P))
        dev.append(E/P-1)
    need(abs(dev[1]) < 0.9*abs(dev[0]) and abs(dev[1]) < (0.9 if c["int"] else 0.6),
         "relative deviation from the proximity force approximation %g at gap 0.5, %g at 0.25" % tuple(dev))
    return "int" if c["int"] else "ext"
