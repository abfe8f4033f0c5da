"""From the JSON description of a material to an object of the code under test and to its reference response."""
import numpy as np
from mpmath import mpf
import ref
import materials


class Constant(materials.Material):
    """user-defined material, as the base class documents it"""
    is_sigma_finite = True
    is_dielectric = True
    e_properties = []
    b_properties = ()

    def __init__(self, eps, mu):
        materials.Material.__init__(self)
        self._e, self._m = eps, mu
        self.is_magnetic = mu != 1

    def epsilon(self, k):
        return self._e*np.ones(np.shape(k))

    def mu(self, k):
        return self._m*np.ones(np.shape(k))


def make(spec):
    if "pec" in spec:
        return materials.PerfectConductor
    if "lib" in spec:
        return getattr(materials, spec["lib"])
    if "eps" in spec:
        return Constant(spec["eps"], spec["mu"])
    if "smith" in spec:
        return materials.LorentzSmithMaterial([tuple(spec["smith"])], tuple(spec["b"]))
    return materials.LorentzMaterial([tuple(p) for p in spec["e"]], tuple(spec["b"]))


def is_pec(spec):
    return "pec" in spec or spec.get("lib") == "PerfectConductor"


def expand(spec):
    """library materials by their own oscillator lists"""
    if "lib" in spec and not is_pec(spec):
        m = getattr(materials, spec["lib"])
        if spec["lib"] == "MercurySmith":
            return {"smith": list(m.e_properties[0]), "b": list(m.b_properties)}
        return {"e": [list(p) for p in m.e_properties], "b": list(m.b_properties)}
    return spec


def response(spec, k):
    """(eps, mu) as mpf, (None, 1) for a perfect conductor"""
    if is_pec(spec):
        return None, mpf(1)
    spec = expand(spec)
    if "eps" in spec:
        return mpf(spec["eps"]), mpf(spec["mu"])
    if "smith" in spec:
        return ref.smith_eps([spec["smith"]], k), ref.mu_model(spec["b"], k)
    return ref.lorentz_eps(spec["e"], k), ref.mu_model(spec["b"], k)


def kind(spec):
    if is_pec(spec):
        return "pec"
    spec = expand(spec)
    if "eps" in spec:
        return "dielectric"
    if "smith" in spec:
        return "drude"
    zero = [p for p in spec["e"] if p[1] == 0 and p[0] != 0]
    if not zero:
        return "dielectric" if spec["e"] else "vacuum"
    return "plasma" if any(p[2] == 0 for p in zero) else "drude"


def magnetic(spec):
    spec = expand(spec)
    return bool(spec.get("b")) or spec.get("mu", 1) != 1


def static(spec):
    """(kind, eps, mu, plasma wavenumber times sqrt(mu)) at zero frequency"""
    k = kind(spec)
    if k == "pec":
        return "pec", None, mpf(1), 0
    s = expand(spec)
    if "eps" in s:
        return "dielectric", mpf(s["eps"]), mpf(s["mu"]), 0
    mu = mpf(s["b"][0]) if s["b"] else mpf(1)
    if "smith" in s:
        return "drude", None, mu, 0
    if k in ("dielectric", "vacuum"):
        e = mpf(1)
        for wp, wr, ga in s["e"]:
            if wp:
                e += (mpf(wp)/mpf(wr))**2
        return "dielectric", e, mu, 0
    w2 = sum(mpf(wp)**2 for wp, wr, ga in s["e"] if wr == 0 and ga == 0)
    return k, None, mu, (w2*mu)**0.5/ref.C_MICRON
