"""C19: proximity force approximation for two spheres."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import lifshitz as lf
import mats
from core import law, close, flat
import props.c18 as c18
import PFA

_x, _w = np.polynomial.legendre.leggauss(60)


def spheres(gap=(0.05, 3.0), ratio=8.0):
    """radii and gap (in units of the smaller radius); interior: the second sphere surrounds the first and is larger by more
       than the gap"""
    return st.fixed_dictionaries({"r": gen.logf(0.1, 10), "q": gen.logf(1, ratio, special=(1.0,)), "g": gen.logf(*gap), "int": st.booleans(),
                                  "swap": st.booleans(), "ecc": gen.unif(0, 1, special=(0.0,))})


def resolve(s):
    """(r1, r2, centre distance, gap)"""
    if not s["int"]:
        a, b = s["r"], float("%.6g" % (s["r"]*s["q"]))
        r1, r2 = (b, a) if s["swap"] else (a, b)
        d = float("%.8g" % (r1+r2+s["g"]*s["r"]))
        return r1, r2, d, d-r1-r2
    r1 = s["r"]
    # centre displacement between zero and a few radii of the inner sphere
    d = float("%.8g" % (s["ecc"]*3*r1))
    r2 = float("%.8g" % (r1+d+s["g"]*r1))
    return r1, r2, d, r2-r1-d


def s_dist(tier):
    return st.fixed_dictionaries({"s": spheres((1e-3, 30.0), 100.0), "f": gen.unif(0, 1, special=(0.0, 1.0)), "p": c18.plates()})


@law("C19", s_dist, 1500, 30000)
def surface_distance(c):
    """distance of the surfaces at a lateral coordinate up to the smaller radius, against 30 digit values"""
    r1, r2, d, gap = resolve(c["s"])
    rho = min(r1, r2)*c["f"]
    with mp.workdps(30):
        z = [mp.sqrt(mp.mpf(r)**2-mp.mpf(rho)**2) for r in (r1, r2)]
        want = float(mp.mpf(d)-z[0]-z[1] if not c["s"]["int"] else z[1]-mp.mpf(d)-z[0])
    got = flat(PFA.SphereSpherePFA(mats.make(c["p"]["a"]), mats.make(c["p"]["b"]), mats.make(c["p"]["med"])).distance(r1, r2, d, rho), 1)
    # rounding of 1-(rho/r)**2 is amplified at the rim
    close(got, [want], 0, 1e-13*(r1+r2+d)+(4e-8*min(r1, r2) if c["f"] > 1-1e-9 else 1e-15*min(r1, r2)/np.sqrt(max(1-c["f"]**2, 1e-9))), "distance")
    return "int" if c["s"]["int"] else "ext"


def s_force(tier):
    return st.fixed_dictionaries({"s": spheres(), "p": c18.plates(), "TL": gen.logf(1.0, 40), "T": st.sampled_from(["finite"]*5+["inf"]*2), "mod": st.integers(0, 1),
                                  "sh": st.booleans()})


def reference(p, T, L, nmax, sh):
    """(value, tolerance) of the plane-plane free energy"""
    if T == np.inf:
        t = 0.5*sum(lf.term(p["a"], p["b"], p["med"], 1e-20, L))
        return (0*t if sh else t), 1e-6*abs(t)+4e-8
    r = lf.free_energy(p["a"], p["b"], p["med"], T, L, nmax)
    return r["all"]-(r["n0"] if sh else 0), c18.tolerance(r, T, sh)


@law("C19", s_force, 240, 4800)
def force(c):
    """force = 2 pi Reff times the plane-plane free energy at the gap; raw energy = pi Reff gap times the same; exterior and
       interior, finite and infinite temperature, with and without the zeroth term; non-trivial: above the tolerance"""
    p = c["p"]
    r1, r2, d, L = resolve(c["s"])
    P = c18.make(p, c["mod"])
    T = np.inf if c["T"] == "inf" else float("%.5g" % (max(c["TL"], 4.0 if c["mod"] else 0)/L))
    want, tol = reference(p, T, L, (20 if c["mod"] == 0 else 100)/(T*L), c["sh"])
    reff = r1*r2/((r2-r1) if c["s"]["int"] else (r1+r2))
    if c["mod"] == 0:
        a = (r1, r2, T, d) + ((True,) if c["sh"] else ())
        close(flat(P.spheresphereForce(*a), 1), [2*np.pi*reff*want], 0, 2*np.pi*reff*tol, "PFA force")
    else:
        kw = {}
        if c["sh"]:
            kw["n0_shielding"] = True
        if c["s"]["int"]:
            kw["ext"] = False
        close(flat(P.spheresphereForce(r1, r2, T, L, **kw), 1), [2*np.pi*reff*want], 0, 2*np.pi*reff*tol, "raw PFA force")
        close(flat(P.spheresphereEnergy(r1, r2, T, L, **kw), 1), [np.pi*reff*L*want], 0, np.pi*reff*L*tol, "raw PFA energy")
    return ("int," if c["s"]["int"] else "ext,")+c18.label(p) if abs(want) > 10*tol else None


def s_energy(tier):
    m = st.one_of(gen.dielectric(maxn=1), gen.const(), gen.plasma(), gen.PEC, gen.lib(["Gold", "Polystyrene", "Silicon", "PerfectConductor"]))
    return st.fixed_dictionaries({"s": spheres((0.1, 3.0), 5.0), "p": st.fixed_dictionaries({"a": m, "b": m, "med": st.one_of(gen.VAC, gen.lib(["Water"]), gen.const((1.0, 5.0), (0.5, 3.0)))}),
                                  "TL": gen.logf(2.0, 60), "T": st.sampled_from(["finite"]*5+["inf"]), "sh": st.sampled_from([False, False, True])})


@law("C19", s_energy, 72, 1600)
def energy(c):
    """energy = integral of the plane-plane free energy over the cross section of the smaller sphere, against independent
       quadrature; exterior and interior, finite and infinite temperature; non-trivial: above the tolerance"""
    p = c["p"]
    r1, r2, d, L0 = resolve(c["s"])
    T = np.inf if c["T"] == "inf" else float("%.5g" % (c["TL"]/L0))
    th = 0.25*np.pi*(_x+1)
    r = min(r1, r2)
    rho, jac = r*np.sin(th), 0.25*np.pi*_w*r*np.cos(th)
    z1, z2 = np.sqrt(r1**2-rho**2), np.sqrt(r2**2-rho**2)
    L = z2-d-z1 if c["s"]["int"] else d-z1-z2
    F, tol = reference(p, T, L, 20/(T*L) if T < np.inf else 0, c["sh"])
    want, tol = (2*np.pi*rho*jac*F).sum(), (2*np.pi*rho*jac*tol).sum()
    a = (r1, r2, T, d) + ((True,) if c["sh"] else ())
    got = flat(c18.make(p, 0).spheresphereEnergy(*a), 1)
    close(got, [want], 1e-6, tol+1e-7, "PFA energy")
    return ("int," if c["s"]["int"] else "ext,")+c18.label(p) if abs(want) > 10*tol+1e-6 else None


def s_zero(tier):
    return st.fixed_dictionaries({"s": spheres(), "p": st.fixed_dictionaries({"a": gen.PEC, "b": st.one_of(gen.PEC, gen.const()), "med": st.one_of(gen.VAC, gen.const((1.0, 5.0), (0.5, 3.0)))}),
                                  "mod": st.integers(0, 1)})


@law("C19", s_zero, 16, 400)
def zero_temperature(c):
    """force and raw energy at zero temperature use the zero-temperature plane-plane energy"""
    p = c["p"]
    r1, r2, d, L = resolve(c["s"])
    want = lf.zero_temperature(p["a"], p["b"], p["med"], L)
    reff = r1*r2/((r2-r1) if c["s"]["int"] else (r1+r2))
    P = c18.make(p, c["mod"])
    if c["mod"] == 0:
        close(flat(P.spheresphereForce(r1, r2, 0, d), 1), [2*np.pi*reff*want], 1e-4, 2*np.pi*reff*1e-6, "PFA force at T=0")
    else:
        kw = {"ext": False} if c["s"]["int"] else {}
        close(flat(P.spheresphereForce(r1, r2, 0, L, **kw), 1), [2*np.pi*reff*want], 1e-4, 2*np.pi*reff*1e-6, "raw PFA force at T=0")
        close(flat(P.spheresphereEnergy(r1, r2, 0, L, **kw), 1), [np.pi*reff*L*want], 1e-4, np.pi*reff*L*1e-6, "raw PFA energy at T=0")
    return "int" if c["s"]["int"] else "ext"
