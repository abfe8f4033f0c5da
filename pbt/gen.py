"""Hypothesis strategies; every generated value is JSON-able."""
import math
from hypothesis import strategies as st


def logf(lo, hi, digits=5, special=()):
    """log-uniform float with few digits; `special` values are mixed in"""
    a, b = math.log10(lo), math.log10(hi)
    s = st.floats(a, b, allow_nan=False).map(lambda u: min(hi, max(lo, float("%.*g" % (digits, 10**u)))))
    if special:
        s = st.one_of(s, s, s, st.sampled_from([float(v) for v in special]))
    return s


def unif(lo, hi, digits=5, special=()):
    s = st.floats(lo, hi, allow_nan=False).map(lambda u: min(hi, max(lo, float("%.*g" % (digits, u)))))
    if special:
        s = st.one_of(s, s, s, st.sampled_from([float(v) for v in special]))
    return s


def ks(lo=1e-6, hi=1e2, maxn=5, special=()):
    """unsorted list of wavenumbers, sometimes with duplicates or sorted either way"""
    base = st.lists(logf(lo, hi, special=special), min_size=1, max_size=maxn)
    return st.one_of(base, base, base.map(sorted), base.map(lambda l: sorted(l, reverse=True)),
                     base.map(lambda l: (l+l[:1])[:max(1, maxn)]))


def opaque(s):
    """keeps one_of from flattening, so that the alternatives of a nested choice share its weight"""
    return s.map(lambda x: x)


# ------------------------------------------------------------------ materials
OSC_WR = logf(1e12, 1e17)


def oscillator(damped=True):
    """Lorentz oscillator with static strength (wp/wr)^2 between 1e-2 and 50"""
    return st.tuples(OSC_WR, logf(1e-2, 50), st.one_of(st.just(0.0), logf(1e10, 1e16)) if damped else st.just(0.0)).map(
        lambda t: [float("%.6g" % (t[0]*math.sqrt(t[1]))), t[0], t[2]])


def magnetic(mu=(0.2, 20.0), wm=(1e9, 1e17)):
    return st.tuples(logf(*mu), logf(*wm)).map(list)


NO_B = st.just([])


def dielectric(b=NO_B, maxn=3):
    return st.tuples(st.lists(oscillator(), min_size=1, max_size=maxn), b).map(lambda t: {"e": t[0], "b": t[1]})


def zero_osc(ga):
    return st.tuples(logf(1e14, 5e17), ga).map(lambda t: [t[0], 0.0, t[1]])


def conductor(ga, b=NO_B, extra=2):
    """one or two zero-frequency oscillators, in any position among dielectric ones"""
    return st.tuples(st.lists(zero_osc(ga), min_size=1, max_size=2), st.lists(oscillator(), max_size=extra), b,
                     st.booleans()).map(lambda t: {"e": (t[0]+t[1]) if t[3] else (t[1]+t[0]), "b": t[2]})


def drude(b=NO_B):
    return conductor(logf(1e11, 1e15), b)


def plasma(b=NO_B):
    return conductor(st.just(0.0), b)


def mixed(b=NO_B):
    """an undamped and a damped zero-frequency oscillator"""
    return st.tuples(zero_osc(st.just(0.0)), zero_osc(logf(1e11, 1e15)), st.booleans(), b).map(
        lambda t: {"e": [t[0], t[1]] if t[2] else [t[1], t[0]], "b": t[3]})


PEC = st.just({"pec": 1})
VAC = st.just({"e": [], "b": []})
DIEL_NAMES = ["Water", "modifiedWater", "Ethanol", "AlternEth", "Altern1Ps", "Altern2Ps", "Polystyrene",
              "Bromobenzene", "Ptfe", "Silicon", "Vacuum"]
DRUDE_NAMES = ["Gold", "Gold_Bimonte", "Silver", "SiC", "Mercury"]
PLASMA_NAMES = ["Gold_plasma", "Gold_plasma_wp1", "Gold_plasma_wp01", "Gold_plasma_wp10", "Silver_plasma", "SiC_plasma",
                "Mercury_plasma", "MercurySmith_plasma", "Artificial"]
OTHER_NAMES = ["Gold_magnetic", "MercurySmith", "PerfectConductor"]
ALL_NAMES = DIEL_NAMES+DRUDE_NAMES+PLASMA_NAMES+OTHER_NAMES


def lib(names):
    return st.sampled_from(names).map(lambda n: {"lib": n})


def const(eps=(1.0, 1e4), mu=(0.1, 10.0)):
    """user-defined material with frequency independent response"""
    return st.tuples(logf(*eps), logf(*mu, special=(1.0,))).map(lambda t: {"eps": t[0], "mu": t[1]})


MAYBE_B = st.one_of(NO_B, NO_B, magnetic())


def medium(b=MAYBE_B):
    return st.one_of(VAC, dielectric(b), lib(DIEL_NAMES))


def solid(b=MAYBE_B, pec=False):
    opts = [dielectric(b), drude(b), plasma(b), mixed(b), lib(DIEL_NAMES+DRUDE_NAMES+PLASMA_NAMES),
            lib(["MercurySmith", "Gold_magnetic"]), VAC]
    if pec:
        opts += [PEC, lib(["PerfectConductor"])]
    return st.one_of(*opts)
