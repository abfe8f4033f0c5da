"""C18: Lifshitz free energy and pressure of two half-spaces, Fresnel coefficients."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st
import gen
import lifshitz as lf
import mats
from core import law, arr, close, flat, need, seq, Frozen
import PFA
import raw_PFA
import scattering

MODS = [PFA, raw_PFA]


def plates(pec=True):
    return st.fixed_dictionaries({"a": gen.solid(pec=pec), "b": gen.solid(pec=pec), "med": st.one_of(gen.medium(), gen.const((1.0, 10.0), (0.3, 5.0)), gen.VAC)})


def make(c, mod):
    return MODS[mod].SphereSpherePFA(mats.make(c["a"]), mats.make(c["b"]), mats.make(c["med"]))


def label(c):
    return "%s/%s/%s" % (mats.kind(c["a"]), mats.kind(c["b"]), mats.kind(c["med"]))+(",magnetic" if any(mats.magnetic(c[i]) for i in ("a", "b", "med")) else "")


def r_exact(spec, med, kp, kn):
    """reflection coefficients to 40 digits"""
    e, m = mats.response(spec, kn)
    if e is None:
        return mp.mpf(-1), mp.mpf(1)
    eM, mM = mats.response(med, kn)
    kp, kn = mp.mpf(kp), mp.mpf(kn)
    sM, sP = mp.sqrt(kp**2+eM*mM*kn**2), mp.sqrt(kp**2+e*m*kn**2)
    return (m*sM-mM*sP)/(m*sM+mM*sP), (e*sM-eM*sP)/(e*sM+eM*sP)


def s_fresnel(tier):
    return st.fixed_dictionaries({"a": gen.solid(pec=True), "med": st.one_of(gen.medium(), gen.drude(), gen.const()),
                                  "kp": gen.ks(1e-6, 1e3, 4), "kn": gen.logf(1e-8, 1e3), "form": st.sampled_from(["scalar", "array", "both"])})


@law("C18", s_fresnel, 1500, 30000)
def fresnel(c):
    """reflection coefficients of a half-space in a medium, for scalars and arrays of wavenumbers, against 40 digit values;
       non-trivial: reflecting"""
    s = scattering.scattering(mats.make(c["a"]), mats.make(c["med"]))
    with mp.workdps(40):
        want = [[float(x) for x in r_exact(c["a"], c["med"], kp, c["kn"])] for kp in c["kp"]]
    kp = np.array(c["kp"])
    fr = Frozen(kp=kp)
    n = len(kp)
    pec = mats.is_pec(c["a"])
    if c["form"] == "scalar" or pec:
        got = [[float(flat(x, 1)[0]) for x in seq(s.fresnel(p, c["kn"]), 2)] for p in c["kp"]]
    elif c["form"] == "array":
        got = np.array([arr(x, (n,), "Fresnel coefficients") for x in seq(s.fresnel(kp, c["kn"]), 2)]).T
    else:
        got = np.array([arr(x, (n,), "Fresnel coefficients") for x in seq(s.fresnel(kp, c["kn"]*np.ones(n)), 2)]).T
    fr.check()
    close(got, want, 1e-11, 4e-15, "Fresnel coefficients")
    return label(dict(c, b=c["med"])) if np.abs(want).max() > 1e-6 else None


def s_round(tier):
    return st.fixed_dictionaries({"p": plates(), "kp": gen.logf(1e-4, 1e2), "kn": gen.logf(1e-6, 1e2), "L": gen.logf(0.01, 10), "mod": st.integers(0, 1)})


@law("C18", s_round, 1500, 30000)
def integrands(c):
    """logarithm of one minus the round-trip factor and its distance derivative, per polarization and summed, against 40 digit
       values; non-trivial: the factor is above 1e-12"""
    P, p = make(c["p"], c["mod"]), c["p"]
    with mp.workdps(40):
        eM, mM = mats.response(p["med"], c["kn"])
        kap = mp.sqrt(mp.mpf(c["kp"])**2+eM*mM*mp.mpf(c["kn"])**2)
        e = [u*v*mp.exp(-2*kap*mp.mpf(c["L"])) for u, v in zip(r_exact(p["a"], p["med"], c["kp"], c["kn"]), r_exact(p["b"], p["med"], c["kp"], c["kn"]))]
        f = [float(mp.log(1-x)) for x in e]
        g = [float(-2*kap*x/(1-x)) for x in e]
        gap = float(min(1-x for x in e))
        k = float(kap)
    # absolute rounding error of the factor, divided by its distance from one
    t = (1e-14+2e-15*k*c["L"]*max(abs(float(x)) for x in e))/gap
    close([float(flat(x, 1)[0]) for x in seq(P.roundTrips(c["kp"], c["kn"], c["L"]), 2)], f, 1e-10, t, "roundTrips")
    close([float(flat(x, 1)[0]) for x in seq(P.pressureRoundTrips(c["kp"], c["kn"], c["L"]), 2)], g, 1e-10, 2*k*t/min(gap, 1), "pressureRoundTrips")
    if c["mod"] == 0:
        close(flat(P.roundTrip(c["kp"], c["kn"], c["L"]), 1), [sum(f)], 1e-10, 2*t, "roundTrip")
        close(flat(P.pressureRoundTrip(c["kp"], c["kn"], c["L"]), 1), [sum(g)], 1e-10, 4*k*t/min(gap, 1), "pressureRoundTrip")
    return label(p) if max(abs(float(x)) for x in e) > 1e-12 else None


def s_F(tier):
    return st.fixed_dictionaries({"p": plates(), "L": gen.logf(0.002, 50), "TL": gen.logf(0.4, 40), "sh": st.booleans(), "mod": st.integers(0, 1)})


def setup(c):
    L = c["L"]
    T = float("%.5g" % ((c["TL"] if c["mod"] == 0 else max(c["TL"], 4.0))/L))
    return T, L, int((20 if c["mod"] == 0 else 100)/(T*L))


def tolerance(r, T, sh):
    # quad of the code: 1.5e-8 relative or absolute per integral, times the temperature
    return 1e-6*r["size"]+4e-8*T*r["count"]+2*r["tail"]+(0 if sh else 1.5*r["spread"])


@law("C18", s_F, 240, 4800)
def free_energy(c):
    """free energy per area of two half-spaces against independent quadrature of every Matsubara term, in both modules, with and
       without the zeroth term; non-trivial: the free energy is above the tolerance"""
    p = c["p"]
    T, L, nmax = setup(c)
    r = lf.free_energy(p["a"], p["b"], p["med"], T, L, nmax)
    want = r["all"]-(r["n0"] if c["sh"] else 0)
    P = make(p, c["mod"])
    got = flat(P.planeplaneFreeEnergy(T, L, True) if c["sh"] else P.planeplaneFreeEnergy(T, L), 1)
    tol = tolerance(r, T, c["sh"])
    close(got, [want], 0, tol, "free energy per area")
    return label(p) if abs(want) > 10*tol else None


@law("C18", s_F, 240, 4800)
def pressure(c):
    """pressure against independent quadrature of every Matsubara term, in both modules, with and without the zeroth term;
       non-trivial: the pressure is above the tolerance"""
    p = c["p"]
    T, L, nmax = setup(c)
    r = lf.free_energy(p["a"], p["b"], p["med"], T, L, nmax, True)
    want = r["all"]-(r["n0"] if c["sh"] else 0)
    P = make(p, c["mod"])
    got = flat(P.planeplanePressure(T, L, True) if c["sh"] else P.planeplanePressure(T, L), 1)
    tol = tolerance(r, T, c["sh"])
    close(got, [want], 0, tol, "pressure")
    return label(p) if abs(want) > 10*tol else None


def s_low(tier):
    m = st.one_of(gen.PEC, gen.drude(), gen.dielectric(maxn=2), gen.lib(["Gold", "Polystyrene"]))
    p = st.fixed_dictionaries({"a": m, "b": m, "med": st.one_of(gen.VAC, gen.const((1.0, 5.0), (0.5, 3.0)))})
    return st.fixed_dictionaries({"p": p, "L": gen.logf(0.01, 30), "TL": gen.logf(0.02, 0.5), "sh": st.booleans(), "P": st.booleans()})


@law("C18", s_low, 32, 1000)
def low_temperature(c):
    """as free_energy and pressure in PFA.py, for temperatures that need 40 to 1000 Matsubara terms"""
    p = c["p"]
    T, L, nmax = setup(dict(c, mod=0))
    r = lf.free_energy(p["a"], p["b"], p["med"], T, L, nmax, c["P"])
    want = r["all"]-(r["n0"] if c["sh"] else 0)
    P = make(p, 0)
    f = P.planeplanePressure if c["P"] else P.planeplaneFreeEnergy
    got = flat(f(T, L, True) if c["sh"] else f(T, L), 1)
    tol = tolerance(r, T, c["sh"])
    close(got, [want], 0, tol, "pressure" if c["P"] else "free energy per area")
    return ("pressure," if c["P"] else "energy,")+label(p) if abs(want) > 10*tol else None


def s_terms(tier):
    return st.fixed_dictionaries({"p": plates(), "L": gen.logf(0.002, 50), "kL": st.lists(gen.logf(1e-2, 10), min_size=0, max_size=8),
                                  "first": st.sampled_from(["zero", "small", "finite"]), "T": gen.logf(0.1, 10), "sh": st.booleans(), "mod": st.integers(0, 1)})


@law("C18", s_terms, 240, 4800)
def matsubara_terms(c):
    """terms for given frequencies, in the order given, the first with weight one half (PFA) or one (raw), zero if shielded;
       the frequencies of the caller stay as they are"""
    p, L = c["p"], c["L"]
    ks = [float("%.5g" % (x/L)) for x in c["kL"]]
    first = {"zero": 0.0, "small": 1e-10, "finite": float("%.5g" % (1.3/L))}[c["first"]]
    if c["mod"] == 0 and first == 0:
        first = 1e-20
    k = np.array([first]+ks)
    fr = Frozen(k=k)
    P = make(p, c["mod"])
    got = P.get_f_matsubaras(c["T"], L, k, True) if c["sh"] else P.get_f_matsubaras(c["T"], L, k)
    fr.check()
    want = np.array([lf.term(p["a"], p["b"], p["med"], x if x else 1e-20, L) for x in k]).T
    want[:, 0] *= 0 if c["sh"] else (0.5 if c["mod"] == 0 else 1)
    if c["mod"] == 1:
        want = want.sum(0)
    close(arr(got, want.shape, "Matsubara terms"), want, 1e-6, 4e-8, "Matsubara terms")
    return label(p)


def s_lim(tier):
    return st.fixed_dictionaries({"p": plates(), "L": gen.logf(0.002, 50), "mod": st.integers(0, 1), "sh": st.booleans()})


@law("C18", s_lim, 200, 4000)
def infinite_temperature(c):
    """the free energy divided by the temperature tends to half of the zeroth term"""
    p, L = c["p"], c["L"]
    P = make(p, c["mod"])
    a = (L, True) if c["sh"] else (L,)
    want = 0 if c["sh"] else 0.5*sum(lf.term(p["a"], p["b"], p["med"], 1e-20, L))
    res = [P.planeplaneFreeEnergyHT(*a)]
    if c["mod"] == 0:
        res.append(P.planeplaneFreeEnergy(np.inf, *a))
    for r in res:
        close(flat(r, 1), [want], 1e-6, 4e-8, "high-temperature free energy")
    return label(p)


def s_e0(tier):
    m = st.one_of(gen.dielectric(maxn=2), gen.drude(), gen.plasma(), gen.PEC, gen.lib(["Gold", "Polystyrene", "Silicon"]))
    return st.fixed_dictionaries({"p": st.fixed_dictionaries({"a": m, "b": m, "med": st.one_of(gen.VAC, gen.lib(["Water", "Ethanol"]), gen.const((1.0, 5.0), (0.5, 3.0)))}),
                                  "L": gen.logf(0.01, 5), "mod": st.integers(0, 1), "via": st.booleans()})


@law("C18", s_e0, 16, 600)
def zero_temperature(c):
    """the energy at zero temperature is the integral over all frequencies"""
    p, L = c["p"], c["L"]
    P = make(p, c["mod"])
    got = P.planeplaneFreeEnergy(0, L) if c["via"] else P.planeplane_e0(L)
    want = lf.zero_temperature(p["a"], p["b"], p["med"], L)
    close(flat(got, 1), [want], 2e-5, 1e-6, "zero-temperature energy")
    return label(p)


def s_d(tier):
    return st.fixed_dictionaries({"p": plates(), "L": gen.logf(0.01, 2), "TL": gen.logf(2, 10), "mod": st.integers(0, 1)})


@law("C18", s_d, 40, 1000)
def pressure_is_derivative(c):
    """pressure = - d(free energy)/dL, from fourth-order differences of the code's own free energies"""
    p, L = c["p"], c["L"]
    T = float("%.5g" % (max(c["TL"], 5.0 if c["mod"] else 0)/L))
    P = make(p, c["mod"])
    h = 0.03*L
    f = {i: float(flat(P.planeplaneFreeEnergy(T, L+i*h, True), 1)[0]) for i in (-2, -1, 1, 2)}
    want = -(8*(f[1]-f[-1])-(f[2]-f[-2]))/(12*h)
    got = flat(P.planeplanePressure(T, L, True), 1)
    close(got, [want], 1e-3, 3e-7*T/h, "pressure")
    return label(p) if abs(want) > 1e-5*T/h else None
